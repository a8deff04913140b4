//! Files: worker results, replay files, evidence, known findings.

use crate::checks::Check;
use crate::engine::{Ctx, Viol};
use crate::Merged;
use std::path::Path;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push_str(&format!("\\x{:x};", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('x') => {
                let h: String = it.by_ref().take_while(|c| *c != ';').collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

pub fn write_result(path: &Path, c: &Ctx) {
    let s = &c.stats;
    let mut o = format!("n\t{}\t{}\t{}\t{}\t{}\n", s.cases, s.skipped, s.states, s.transitions, c.stop);
    for (k, n) in &s.known {
        o += &format!("known\t{}\t{}\n", k, n);
    }
    for (i, n) in s.classes.iter().enumerate() {
        if *n > 0 {
            o += &format!("class\t{}\t{}\n", i, n);
        }
    }
    for (g, n) in &s.groups {
        o += &format!("group\t{}\t{}\n", esc(g), n);
    }
    for x in &s.samples {
        o += &format!("sample\t{}\n", esc(x));
    }
    for v in &c.viols {
        o += &format!("viol\t{}\t{}", esc(&v.kind), esc(&v.msg));
        for a in &v.args {
            o += &format!("\t{}", esc(a));
        }
        o.push('\n');
    }
    o += "end\n";
    std::fs::write(path, o).expect("result file");
}

impl Merged {
    pub fn read(&mut self, path: &Path, first: bool) {
        let text = match std::fs::read_to_string(path) {
            Ok(t) if t.ends_with("end\n") => t,
            _ => return,
        };
        self.files += 1;
        let mut g = 0;
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "n" => {
                    let n = |i: usize| -> u64 { f[i].parse().unwrap() };
                    self.cases += n(1);
                    self.skipped += n(2);
                    if first {
                        self.states = n(3);
                        self.transitions = n(4);
                    }
                    self.stopped |= f[5] == "true";
                }
                "known" => *self.known.entry(f[1].to_string()).or_default() += f[2].parse::<u64>().unwrap(),
                "class" => *self.classes.entry(f[1].parse().unwrap()).or_default() += f[2].parse::<u64>().unwrap(),
                "group" => {
                    let k: u64 = f[2].parse().unwrap();
                    let name = unesc(f[1]);
                    if g < self.groups.len() && self.groups[g].0 == name {
                        self.groups[g].1 += k;
                    } else {
                        self.groups.push((name, k));
                    }
                    g += 1;
                }
                "sample" if first => self.samples.push(unesc(f[1])),
                "viol" => self.viols.push(Viol { kind: unesc(f[1]), msg: unesc(f[2]), args: f[3..].iter().map(|s| unesc(s)).collect() }),
                _ => {}
            }
        }
    }
}

pub fn replay_text(id: &str, v: &Viol) -> String {
    let mut o = format!("property {}\nkind {}\n", id, esc(&v.kind));
    for a in &v.args {
        o += &format!("arg {}\n", esc(a));
    }
    o += &format!("message {}\n", esc(&v.msg));
    o
}
pub fn read_replay(t: &str) -> (String, Viol) {
    let mut id = String::new();
    let mut v = Viol { kind: String::new(), args: vec![], msg: String::new() };
    for l in t.lines() {
        let (k, x) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => id = x.to_string(),
            "kind" => v.kind = unesc(x),
            "arg" => v.args.push(unesc(x)),
            "message" => v.msg = unesc(x),
            _ => {}
        }
    }
    (id, v)
}

/// `known: property=C08 id=K1 what fails`
pub struct Findings(Vec<(String, String)>);
impl Findings {
    pub fn load(path: &Path, id: &str) -> Findings {
        let text = std::fs::read_to_string(path).unwrap_or_default();
        let mut v = vec![];
        for l in text.lines() {
            let rest = match l.strip_prefix("known: property=") {
                Some(r) => r,
                None => continue,
            };
            let mut p = rest.splitn(3, ' ');
            let (prop, fid, what) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
            if prop == id {
                v.push((fid.trim_start_matches("id=").to_string(), what.to_string()));
            }
        }
        Findings(v)
    }
    pub fn ids(&self) -> String {
        self.0.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(",")
    }
    pub fn text(&self, id: &str) -> String {
        self.0.iter().find(|x| x.0 == id).map(|x| format!("{}: {}", x.0, x.1)).unwrap_or_default()
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn evidence_json(chk: &Check, tier: &str, t: &Merged, viols: usize, wall_s: f64) -> String {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let list = |v: Vec<String>| v.join(",\n      ");
    let groups = list(t.groups.iter().map(|(g, n)| format!("{{\"what\": {}, \"executions\": {}}}", js(g), n)).collect());
    let classes = list(t.classes.iter().map(|(c, n)| format!("\"{}\": {}", c, n)).collect());
    let known = list(t.known.iter().map(|(c, n)| format!("{}: {}", js(c), n)).collect());
    let samples = list(t.samples.iter().map(|s| js(s)).collect());
    format!(
        r#"{{
  "property": "{id}",
  "tier": "{tier}",
  "seed": {seed},
  "level": "model_checking",
  "coverage": {{
    "states": {states},
    "transitions": {transitions},
    "traces_validated_against_impl": {traces},
    "cases_outside_the_property": {skipped},
    "exhaustive": {exh},
    "rule": "every group is enumerated completely within the bound its name states; each execution runs the real library and is judged by the reference models; nothing is sampled (the seed is not used)",
    "distinct_outcome_classes": {nclasses},
    "outcome_classes_meaning": {about},
    "outcome_classes": {{
      {classes}
    }},
    "known_finding_executions": {{
      {known}
    }},
    "groups": [
      {groups}
    ],
    "samples": [
      {samples}
    ]
  }},
  "assumptions": [
    "behaviour beyond the stated bounds follows from the behaviour within them (small scope)",
    "the reference models (lexer, grammar, parser, block string and escape decoding) state the intended GraphQL semantics; they are checked against each other and against every execution"
  ],
  "wall_s": {wall:.2},
  "violations": {viols}
}}
"#,
        id = chk.id,
        tier = tier,
        seed = seed,
        states = t.states,
        transitions = t.transitions,
        traces = t.cases - t.skipped,
        skipped = t.skipped,
        exh = !t.stopped && viols == 0,
        nclasses = t.classes.len(),
        about = js(chk.about),
        classes = classes,
        known = known,
        groups = groups,
        samples = samples,
        wall = wall_s,
        viols = viols,
    )
}
