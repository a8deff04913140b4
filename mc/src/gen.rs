//! Generators: turn the explored graph into texts.

use crate::gram::*;
use crate::refparse::LOCS;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Names {
    /// every slot has its own spelling
    Uniq,
    /// all names, numbers and strings alike
    Same,
    /// names repeat after so many
    Mod(usize),
}

pub fn render(g: &Gram, w: &[S], m: Names) -> Vec<String> {
    let mut v = Vec::with_capacity(w.len());
    let mut names = 0;
    for (i, s) in w.iter().enumerate() {
        let (text, class) = g.syms[*s as usize];
        v.push(match (class, m) {
            (Class::Punct, _) | (Class::Keyword, _) | (_, Names::Same) => text.to_string(),
            (Class::Name, Names::Mod(k)) => {
                names += 1;
                format!("m{}", names % k)
            }
            (Class::Name, _) => format!("n{}", i),
            (Class::Loc, _) => LOCS[i % 19].to_string(),
            (Class::Int, _) => format!("{}{}", if i % 3 == 0 { "-" } else { "" }, 10 + i),
            (Class::Float, _) => format!("{}.5", i),
            (Class::Str, _) => format!("\"s{}\"", i),
            (Class::Block, _) => format!("\"\"\"b{}\"\"\"", i),
        });
    }
    v
}

pub fn spaced(v: &[String]) -> String {
    v.join(" ")
}

fn name_byte(b: Option<&u8>) -> bool {
    matches!(b, Some(b) if *b == b'_' || b.is_ascii_alphanumeric())
}
/// must tokens a and b be kept apart?
pub fn must_separate(a: &str, b: &str) -> bool {
    let (x, y) = (a.as_bytes().last(), b.as_bytes().first());
    if name_byte(x) && name_byte(y) {
        return true;
    }
    let num = matches!(a.as_bytes().first(), Some(b'-' | b'0'..=b'9'));
    if num && y == Some(&b'.') {
        return true;
    }
    x == Some(&b'"') && y == Some(&b'"')
}
pub fn tight(v: &[String]) -> String {
    let mut s = String::new();
    for (i, t) in v.iter().enumerate() {
        if i > 0 && must_separate(&v[i - 1], t) {
            s.push(' ');
        }
        s.push_str(t);
    }
    s
}

/// one sentence per transition of the graph (also the ones leaving the bound)
pub fn transitions(g: &Gram, gr: &Graph, mut f: impl FnMut(&[S])) {
    for i in 0..gr.confs.len() {
        for (s, j) in &gr.next[i] {
            let mut w = gr.word[i].clone();
            w.push(*s);
            w.extend(g.completion(&gr.confs[*j]));
            f(&w);
        }
    }
    for (i, s) in &gr.over {
        let mut w = gr.word[*i].clone();
        w.push(*s);
        let d = g.step(&gr.confs[*i], *s).unwrap();
        w.extend(g.completion(&d));
        f(&w);
    }
}

/// every configuration with every symbol it has no transition for: alone, and
/// inserted into an otherwise complete sentence; and every truncation
pub fn negatives(g: &Gram, gr: &Graph, mut f: impl FnMut(&[S])) {
    for i in 0..gr.confs.len() {
        let c = &gr.confs[i];
        if !g.accepts_end(c) || gr.word[i].is_empty() {
            f(&gr.word[i]);
        }
        for s in 0..g.syms.len() as S {
            if g.step(c, s).is_some() {
                continue;
            }
            let mut w = gr.word[i].clone();
            w.push(s);
            f(&w);
            w.extend(g.completion(c));
            f(&w);
        }
    }
}

/// all sentences of at most `n` tokens; keyword and location symbols that are
/// mere names where they stand are left out (`reduced`)
pub struct All {
    gr: Graph,
    min: Vec<usize>,
    acc: Vec<bool>,
}

impl All {
    pub fn new(g: &Gram, n: usize, reduced: bool) -> All {
        let mut gr = Graph::explore(g, (n / 2).min(6));
        if reduced {
            for v in gr.next.iter_mut() {
                let generic = v.iter().find(|x| g.class(x.0) == Class::Name).map(|x| x.1);
                v.retain(|x| {
                    !(matches!(g.class(x.0), Class::Keyword | Class::Loc) && Some(x.1) == generic)
                });
            }
        }
        let min = gr.confs.iter().map(|c| g.min_len(c)).collect();
        let acc = gr.confs.iter().map(|c| g.accepts_end(c)).collect();
        All { gr, min, acc }
    }
    pub fn graph(&self) -> &Graph {
        &self.gr
    }
    pub fn count(&self, n: usize) -> u64 {
        // number of accepting paths of length <= n
        let mut cur = vec![0u64; self.gr.confs.len()];
        cur[0] = 1;
        let mut total = 0;
        for k in 0..n {
            let mut nxt = vec![0u64; cur.len()];
            for (i, c) in cur.iter().enumerate() {
                if *c == 0 {
                    continue;
                }
                for (_, j) in &self.gr.next[i] {
                    if k + 1 + self.min[*j] <= n {
                        nxt[*j] += c;
                    }
                }
            }
            cur = nxt;
            total += cur.iter().zip(&self.acc).filter(|x| *x.1).map(|x| *x.0).sum::<u64>();
        }
        total
    }
    pub fn each(&self, n: usize, f: &mut dyn FnMut(&[S])) {
        let mut w = vec![];
        self.rec(0, n, &mut w, f);
    }
    fn rec(&self, i: usize, n: usize, w: &mut Vec<S>, f: &mut dyn FnMut(&[S])) {
        if self.acc[i] && !w.is_empty() {
            f(w);
        }
        for (s, j) in &self.gr.next[i] {
            if w.len() + 1 + self.min[*j] <= n {
                w.push(*s);
                self.rec(*j, n, w, f);
                w.pop();
            }
        }
    }
}

/// the way to every configuration with the way out of every other one
pub fn splices(g: &Gram, gr: &Graph, mut f: impl FnMut(&[S])) {
    let outs: Vec<Vec<S>> = gr.confs.iter().map(|c| g.completion(c)).collect();
    let mut distinct: Vec<&Vec<S>> = outs.iter().collect();
    distinct.sort();
    distinct.dedup();
    for i in 0..gr.confs.len() {
        for o in &distinct {
            let mut w = gr.word[i].clone();
            w.extend(o.iter());
            f(&w);
        }
    }
}

/// every loop of the graph: a configuration and a shortest way back to it
pub fn loops(g: &Gram, gr: &Graph, mut f: impl FnMut(usize, &[S])) {
    for i in 0..gr.confs.len() {
        for (s, j) in &gr.next[i] {
            let plain = gr.next[i].iter().any(|x| g.class(x.0) == Class::Name && x.1 == *j);
            if matches!(g.class(*s), Class::Keyword | Class::Loc) && plain {
                continue;
            }
            if let Some(c) = gr.cycle(i, *s) {
                f(i, &c);
            }
        }
    }
}

/// every loop of the graph, pumped `k` times
pub fn pumps(g: &Gram, gr: &Graph, ks: &[usize], mut f: impl FnMut(&[S], usize)) {
    loops(g, gr, |i, c| {
        let tail = g.completion(&gr.confs[i]);
        for k in ks {
            let mut w = gr.word[i].clone();
            for _ in 0..*k {
                w.extend(c);
            }
            w.extend(&tail);
            f(&w, *k);
        }
    });
}

pub const NAME_WORDS: [&str; 78] = [
    "Int", "Float", "String", "Boolean", "ID", "Query", "Mutation", "Subscription", "__schema", "__type", "__Type", "__a",
    "deprecated", "include", "skip", "specifiedBy", "oneOf", "if", "reason", "url", "id", "name", "input_", "IntValue",
    "a", "_", "__typename", "A", "z9", "Z_0", "query", "mutation", "subscription", "fragment", "on",
    "true", "false", "null", "schema", "extend", "type", "interface", "union", "enum", "input",
    "scalar", "directive", "implements", "repeatable", "nullable", "nul", "trueish", "True", "TRUE",
    "falsey", "onFoo", "on_", "o", "On", "queryX", "quer", "typename", "E", "e", "e5", "E5", "x1",
    "QUERY", "FIELD", "VARIABLE_DEFINITION", "implement", "inputs", "Null", "_1", "u0041", "NaN",
    "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn",
    "aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_aB9_",
];

pub const INT_WORDS: [&str; 16] = [
    "0", "-0", "1", "-1", "9", "10", "99", "-100", "2147483647", "2147483648", "-2147483649",
    "4294967296", "9007199254740993", "9223372036854775807", "-9223372036854775808", "1234567890123456789",
];
/// floats that are not integral, and beyond i64 (known finding K2 is elsewhere)
pub const FLOAT_WORDS: [&str; 16] = [
    "0.5", "-0.5", "1.25", "3.14159", "0.1", "1e-1", "1.25E+1", "15e-1", "-2.5e-10", "1e300", "1e-300", "4.9e-324",
    "1.7976931348623157e308", "9223372036854775808.0", "123456789012345678901234567890.5", "0.30000000000000004",
];
pub const STR_WORDS: [&str; 29] = [
    r#""""#, r#"" ""#, r#""a b""#, r#""\"""#, r#""\\""#, r#""\\\"""#, r#""\n""#, r#""a\nb""#, r#""\t""#, "\"#x\"",
    r#""{""#, r#""}""#, r#""),""#, r#""é""#, r#""€""#, r#""😀""#, r#""\u0041""#, r#""\u00e9""#, r#""'""#, r#""/\/""#,
    r#""\b\f\r""#, "\"\u{7f}\"", "\"\u{a0}\u{2028}\"", "\"$x: @y\"",
    "\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\"",
    "\"The quick brown fox, The quick brown fox, The quick brown fox, The quick brown fox, The quick brown fox, The quick brown fox, é€😀é€😀é€😀é€😀é€😀é€😀é€😀é€😀é€😀é€😀é€😀é€😀\"",
    "\"a\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\na\\n\"",
    "\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"\\u00e9\\\"éééééééééééééééééééééééééééééééééééééééé\"",
    "\"                                                                      \"",
];
pub const BLOCK_WORDS: [&str; 27] = [
    r#""""""""#,
    "\"\"\" \"\"\"",
    "\"\"\"x\"\"\"",
    "\"\"\"\n  x\n    y\n  \"\"\"",
    "\"\"\"x\n  y\"\"\"",
    "\"\"\"\n\n  x\n\n\n  y\n\n\"\"\"",
    "\"\"\"a\\b\"\"\"",
    "\"\"\"\\\"\"\"\"\"\"",
    "\"\"\"a \\\"\"\" b\nc\"\"\"",
    "\"\"\"\"x\" y\"\"\"",
    "\"\"\"\tx\n\t\ty\"\"\"",
    "\"\"\"x\r\n y\r z\"\"\"",
    "\"\"\"é\n  😀\"\"\"",
    "\"\"\"\n\u{a0}x\n\u{a0}y\"\"\"",
    "\"\"\"# no comment\n{ }\"\"\"",
    "\"\"\"  x\n  y  \n\"\"\"",
    "\"\"\"\\\\\n\\n\"\"\"",
    "\"\"\"x \"\"\"",
    "\"\"\" \n x\"\"\"",
    "\"\"\"x\n\n y\n\t\"\"\"",
    "\"\"\"\n a\n\tb\n\"\"\"",
    "\"\"\"a\n\"\" b\n\\\"\"\"\n\"\"\"",
    "\"\"\"\nxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\n\"\"\"",
    "\"\"\"lorem ipsum é 😀 lorem ipsum é 😀 lorem ipsum é 😀 lorem ipsum é 😀 lorem ipsum é 😀 lorem ipsum é 😀 lorem ipsum é 😀 lorem ipsum é 😀 lorem ipsum é 😀 \"\"\"",
    "\"\"\"\nline 0\n line 1\n  line 2\n   line 3\nline 4\n line 5\n  line 6\n   line 7\nline 8\n line 9\n  line 10\n   line 11\nline 12\n line 13\n  line 14\n   line 15\nline 16\n line 17\n  line 18\n   line 19\nline 20\n line 21\n  line 22\n   line 23\nline 24\n line 25\n  line 26\n   line 27\nline 28\n line 29\n  line 30\n   line 31\nline 32\n line 33\n  line 34\n   line 35\nline 36\n line 37\n  line 38\n   line 39\n\"\"\"",
    "\"\"\"\n  para\n\n  para\n\n  para\n\n  para\n\n  para\n\n  para\n\n  para\n\n  para\n\n  para\n\n  para\n\n  para\n\n  para\n\n\"\"\"",
    "\"\"\"\"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" \"\" \\\"\"\" x\"\"\"",
];

/// ignored text, by what it does to the position
pub const IGNORED: [&str; 34] = [
    " ", "  ", "\t", "\n", "\r\n", "\r", ",", "\u{feff}", ", ", "\n\n", " \n ", "\t \t", "\r\r", "\n\r", "#\n", "# c\n",
    "#\r\n", "# c\r\n", "#\r", "# c\r", "#\"{\n", "#é😀\n", "#\u{feff},\n", "##\n", "#a\n#b\n", ",\n,",
    "\u{feff} \u{feff}", "\r\n\r\n", "#\"\"\"\n", "#\t\n\t", "\n\t,", "# \\\n", "#(((\n", "# a, b\n\n  ",
];
