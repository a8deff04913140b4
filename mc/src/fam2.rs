//! Families in which parts of a text are related to one another: equal, one
//! the beginning of the other, the name in a string, the first or last of many.

use crate::engine::Ctx;
use crate::fam::*;
use crate::gen::*;
use crate::gram::*;
use std::collections::HashSet;

fn slot(l: &Lang, s: S) -> u8 {
    match l.g.class(s) {
        Class::Name => b'n',
        Class::Str | Class::Block => b's',
        Class::Int | Class::Float => b'i',
        _ => 0,
    }
}

const NN: [(&str, &str); 13] = [
    ("NORTHEAST", "NORTH"), ("NORTH", "NORTHEAST"), ("Date", "date"), ("date", "Date"), ("DATE", "date"), ("_a", "a"), ("a", "_a"), ("users", "user"), ("user", "userId"), ("ab", "ba"),
    ("aVeryLongNameIndeedOfMoreThan32BytesA", "aVeryLongNameIndeedOfMoreThan32BytesB"), ("x1", "x2"), ("same", "same"),
];
const NS: [(&str, &str); 8] = [
    ("Date", "\"Date\""), ("Date", "\"\"\"Date\"\"\""), ("Date", "\"date\""), ("Dates", "\"Date\""), ("Date", "\"Dates\""), ("Date", "\"The Date.\""), ("date", "\"$date\""), ("Date", "\"Date\\n\""),
];
const SS: [(&str, &str); 9] = [
    ("\"ab\"", "\"ab\""), ("\"ab\"", "\"\"\"ab\"\"\""), ("\"\"\"ab\"\"\"", "\"ab\""), ("\"ab\"", "\"a\""), ("\"a\"", "\"ab\""), ("\"\"\"a\nb\"\"\"", "\"a\\nb\""), ("\"\"", "\"\"\"\"\"\""), ("\"A\"", "\"a\""), ("\"\"\"a\n  b\"\"\"", "\"\"\"a\nb\"\"\""),
];
const II: [(&str, &str); 6] = [("12", "12"), ("12", "-12"), ("1", "12"), ("12", "1"), ("12", "12.5"), ("0", "-1")];
const IS: [(&str, &str); 3] = [("12", "\"12\""), ("12", "\"\"\"12\"\"\""), ("1", "\"12\"")];
const IN: [(&str, &str); 2] = [("12", "a12"), ("1", "_1")];

fn relations(a: u8, b: u8) -> Vec<(&'static str, &'static str)> {
    let swap = |v: &[(&'static str, &'static str)]| v.iter().map(|x| (x.1, x.0)).collect();
    match (a, b) {
        (b'n', b'n') => NN.to_vec(),
        (b'n', b's') => NS.to_vec(),
        (b's', b'n') => swap(&NS),
        (b's', b's') => SS.to_vec(),
        (b'i', b'i') => II.to_vec(),
        (b'i', b's') => IS.to_vec(),
        (b's', b'i') => swap(&IS),
        (b'i', b'n') => IN.to_vec(),
        _ => swap(&IN),
    }
}

/// every two names, strings or numbers of the sentence put in each relation
fn relate(ctx: &mut Ctx, l: &Lang, w: &[S], seen: &mut HashSet<Vec<S>>, f: &mut Sink) {
    let slots: Vec<(usize, u8)> = (0..w.len()).map(|i| (i, slot(l, w[i]))).filter(|x| x.1 != 0).collect();
    let mut v = vec![];
    for (x, a) in slots.iter().enumerate() {
        for b in &slots[x + 1..] {
            // once with all that comes before it and one token after
            let mut key = w[..w.len().min(b.0 + 2)].to_vec();
            key.push(255);
            key.push((a.0 & 255) as S);
            key.push((a.0 >> 8) as S);
            if !seen.insert(key) || !ctx.mine() {
                continue;
            }
            if v.is_empty() {
                v = render(&l.g, w, Names::Uniq);
            }
            let (p, q) = (v[a.0].clone(), v[b.0].clone());
            for (m, n) in relations(a.1, b.1) {
                v[a.0] = m.to_string();
                v[b.0] = n.to_string();
                f(ctx, &v);
            }
            v[a.0] = p;
            v[b.0] = q;
        }
    }
}

pub fn related(ctx: &mut Ctx, l: &Lang, nest: usize, rich: usize, f: &mut Sink) {
    ctx.group(&format!("{} grammar, every two names, strings or numbers of a sentence alike or related in one of {} ways, bracket depth <= {}", l.m, NN.len() + NS.len() * 2 + SS.len() + II.len() + IS.len() * 2 + IN.len() * 2, nest));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    let mut seen = HashSet::new();
    crate::gen::transitions(&l.g, &gr, |w| relate(ctx, l, w, &mut seen, f));
    ctx.group(&format!("{} grammar, the same in every loop twice", l.m));
    let mut known = HashSet::new();
    crate::gen::loops(&l.g, &gr, |i, body| {
        let tail = l.g.completion(&gr.confs[i]);
        let mut key = body.to_vec();
        key.push(255);
        key.extend(&tail);
        if known.insert(key) {
            let mut w = gr.word[i].clone();
            w.extend(body);
            w.extend(body);
            w.extend(&tail);
            relate(ctx, l, &w, &mut seen, f);
        }
    });
    ctx.group(&format!("{} grammar, the same in {} full sentences", l.m, rich));
    for rot in 0..rich {
        let mut w = vec![];
        l.g.rich(rot, 1, usize::MAX, 1, &mut w);
        relate(ctx, l, &w, &mut seen, f);
    }
}

/// the loop bodies of the graph, each in one place of a kind: before, body, after
fn bodies(l: &Lang, nest: usize) -> (Graph, Vec<(usize, Vec<S>, Vec<S>)>) {
    let gr = Graph::explore(&l.g, nest);
    let mut known = HashSet::new();
    let mut out = vec![];
    crate::gen::loops(&l.g, &gr, |i, body| {
        let tail = l.g.completion(&gr.confs[i]);
        let mut key = body.to_vec();
        key.push(255);
        key.extend(&tail);
        if known.insert(key) {
            out.push((i, body.to_vec(), tail));
        }
    });
    (gr, out)
}

/// the same, once per body, bracket that ends it and two tokens before it
fn places(l: &Lang, nest: usize) -> (Graph, Vec<(usize, Vec<S>, Vec<S>)>) {
    let (gr, mut list) = bodies(l, nest);
    let mut known = HashSet::new();
    list.retain(|(i, body, tail)| {
        let w = &gr.word[*i];
        let mut key = body.clone();
        key.push(255);
        key.extend(&w[w.len().saturating_sub(2)..]);
        key.push(255);
        key.extend(tail.first());
        known.insert(key)
    });
    (gr, list)
}

/// names, strings and numbers of two items of a list, related in each way
pub fn siblings(ctx: &mut Ctx, l: &Lang, nest: usize, f: &mut Sink) {
    ctx.group(&format!("{} grammar, every loop body two and three times, every two names, strings or numbers in them related, bracket depth <= {}", l.m, nest));
    let (gr, list) = places(l, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    for (i, body, tail) in &list {
        for k in if ctx.dear && !ctx.thorough() { 2..3 } else { 2..4 } {
            let mut w = gr.word[*i].clone();
            let start = w.len();
            for _ in 0..k {
                w.extend(body);
            }
            let end = w.len();
            w.extend(tail);
            let mut v = render(&l.g, &w, Names::Uniq);
            for x in start..end {
                for y in x + 1..end {
                    let (a, b) = (slot(l, w[x]), slot(l, w[y]));
                    if a == 0 || b == 0 || !ctx.mine() {
                        continue;
                    }
                    let (p, q) = (v[x].clone(), v[y].clone());
                    for (m, n) in relations(a, b) {
                        v[x] = m.to_string();
                        v[y] = n.to_string();
                        f(ctx, &v);
                    }
                    v[x] = p;
                    v[y] = q;
                }
            }
        }
    }
}

/// long lists in which two items share their names and values, or one of them
pub fn alike(ctx: &mut Ctx, l: &Lang, nest: usize, ks: &[usize], f: &mut Sink) {
    ctx.group(&format!("{} grammar, every loop body {:?} times, two of them (the first, last or middle two, first and last) with a name or value, or all, in common, bracket depth <= {}", l.m, ks, nest));
    let (gr, list) = places(l, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    for (i, body, tail) in &list {
        let slots: Vec<usize> = (0..body.len()).filter(|k| slot(l, body[*k]) != 0).collect();
        if slots.is_empty() {
            continue;
        }
        for k in ks {
            let mut pairs = vec![(0, 1), (k - 2, k - 1), (0, k - 1), (k / 2 - 1, k / 2)];
            pairs.dedup();
            for (a, b) in pairs {
                if !ctx.mine() {
                    continue;
                }
                let mut w = gr.word[*i].clone();
                let start = w.len();
                for _ in 0..*k {
                    w.extend(body);
                }
                w.extend(tail);
                let mut v = render(&l.g, &w, Names::Uniq);
                let (x, y) = (start + a * body.len(), start + b * body.len());
                let old: Vec<String> = v[y..y + body.len()].to_vec();
                for s in &slots {
                    v[y + s] = v[x + s].clone();
                    f(ctx, &v);
                    v[y + s] = old[*s].clone();
                }
                if slots.len() > 1 {
                    for s in &slots {
                        v[y + s] = v[x + s].clone();
                    }
                    f(ctx, &v);
                    // all but one
                    for s in &slots {
                        v[y + s] = old[*s].clone();
                        f(ctx, &v);
                        v[y + s] = v[x + s].clone();
                    }
                }
            }
        }
    }
}

pub const PLACED: [&str; 24] = [
    "Node", "Query", "Mutation", "id", "ID", "__typename", "String", "Int", "deprecated", "include", "skip", "a", "A", "query", "type", "if", "reason", "edges", "Node_", "_", "__a", "repeatable", "specifiedBy", "on",
];

/// lists with a word of the menus at each place
pub fn placed(ctx: &mut Ctx, l: &Lang, nest: usize, ks: &[usize], f: &mut Sink) {
    ctx.group(&format!("{} grammar, every loop body {:?} times, each name of each repetition replaced by each of {} words, bracket depth <= {}", l.m, ks, PLACED.len(), nest));
    let (gr, list) = places(l, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    for (i, body, tail) in &list {
        for k in ks {
            let mut w = gr.word[*i].clone();
            let start = w.len();
            for _ in 0..*k {
                w.extend(body);
            }
            let end = w.len();
            w.extend(tail);
            let mut v = render(&l.g, &w, Names::Uniq);
            for p in start..end {
                if slot(l, w[p]) != b'n' || !ctx.mine() {
                    continue;
                }
                let old = v[p].clone();
                for x in PLACED {
                    v[p] = x.to_string();
                    f(ctx, &v);
                }
                v[p] = old;
            }
        }
    }
}

/// wherever something repeats: all sequences of the shortest items, one per
/// first symbol
pub fn sequences(ctx: &mut Ctx, l: &Lang, nest: usize, max: usize, f: &mut Sink) {
    ctx.group(&format!("{} grammar, all sequences of items wherever items repeat, as long as there are <= {} of them (two or more items), bracket depth <= {}", l.m, max, nest));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    let mut known = HashSet::new();
    for i in 0..gr.confs.len() {
        let mut items: Vec<Vec<S>> = vec![];
        for c in gr.cycles(&l.g, i) {
            match items.iter_mut().find(|x| x[0] == c[0]) {
                Some(x) if x.len() > c.len() => *x = c,
                Some(_) => {}
                None => items.push(c),
            }
        }
        if items.is_empty() {
            continue;
        }
        let tail = l.g.completion(&gr.confs[i]);
        let mut key = tail.clone();
        for x in &items {
            key.push(255);
            key.extend(x);
        }
        if !known.insert(key) {
            continue;
        }
        let mut n = 2;
        while n < 6 && items.len().pow(n + 1) <= max {
            n += 1;
        }
        let mut idx = vec![];
        seqs(items.len(), n as usize, &mut idx, &mut |v| {
            if v.len() > 1 && ctx.mine() {
                let mut w = gr.word[i].clone();
                for x in v {
                    w.extend(&items[*x]);
                }
                w.extend(&tail);
                f(ctx, &render(&l.g, &w, Names::Uniq));
            }
        });
    }
}

fn seqs(k: usize, n: usize, acc: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
    f(acc);
    if n > 0 {
        for i in 0..k {
            acc.push(i);
            seqs(k, n - 1, acc, f);
            acc.pop();
        }
    }
}

const MIX: [&str; 12] = ["1", "null", "true", "\"s\"", "$v", "E", "[]", "{}", "1.5", "\"\"\"b\"\"\"", "[null]", "{k:null}"];
const MIX_FEW: [&str; 5] = ["1", "null", "\"s\"", "[]", "E"];

/// objects, lists and arguments of a few values of all kinds, keys in any order
pub fn mixes(ctx: &mut Ctx, m: &str, f: &mut Sink) {
    let q = m == "q";
    let deep = ctx.thorough();
    let menus: &[(&[&str], usize, usize)] = if ctx.dear && !deep { &[(&MIX, 0, 1), (&MIX_FEW, 2, 3)] } else { &[(&MIX, 0, 3), (&MIX_FEW, 4, 4)] };
    for (menu, least, most) in menus {
        ctx.group(&format!("{}: objects, lists and arguments with all sequences of {}..{} of {} values, the keys in every order", m, least, most, menu.len()));
        let places: &[(&str, &str, bool)] = if q {
            &[("{a(b:", ")}", true), ("query($w:T=", "){a}", false), ("{a @d(b:[", " 1])}", true)]
        } else {
            &[("input A{b:T=", "}", false), ("type A @d(b:", ")", true)]
        };
        let mut list = vec![];
        seqs(menu.len(), *most, &mut vec![], &mut |v| {
            if v.len() >= *least {
                list.push(v.iter().map(|i| menu[*i]).collect::<Vec<&str>>());
            }
        });
        ctx.model(list.len() as u64, list.len() as u64 - 1);
        for v in &list {
            if !ctx.mine() {
                continue;
            }
            let mut texts = vec![format!("[{}]", v.join(" "))];
            let keyed = |keys: &[&str]| keys.iter().zip(v).map(|(k, x)| format!("{}:{}", k, x)).collect::<Vec<_>>().join(" ");
            let mut args = vec![];
            permutations(&["c", "d", "e", "f"][..v.len()], &mut |keys| {
                let o = keyed(keys);
                texts.push(format!("{{{}}}", o));
                if args.is_empty() || deep {
                    args.push(o);
                }
            });
            for x in &texts {
                for (k, (a, b, free)) in places.iter().enumerate() {
                    if (*free || !v.contains(&"$v")) && (k == 0 || deep || v.len() < 3) {
                        f(ctx, &split_tokens(&format!("{}{}{}", a, x, b)));
                    }
                }
            }
            for o in &args {
                if !v.is_empty() {
                    f(ctx, &split_tokens(&if q { format!("{{a({}) @g({})}}", o, o) } else { format!("type A @g({})", o) }));
                }
            }
        }
    }
}

fn permutations<'a>(keys: &[&'a str], f: &mut dyn FnMut(&[&'a str])) {
    fn go<'a>(left: &[&'a str], acc: &mut Vec<&'a str>, f: &mut dyn FnMut(&[&'a str])) {
        if left.is_empty() {
            f(acc);
        }
        for i in 0..left.len() {
            let mut rest = left.to_vec();
            acc.push(rest.remove(i));
            go(&rest, acc, f);
            acc.pop();
        }
    }
    go(keys, &mut vec![], f);
}

/// one short definition of every kind
pub const SKINDS: [&str; 17] = [
    "schema{query:Q}", "scalar A", "type B{c:D}", "interface E{f:G}", "union H=I", "enum J{K}", "input L{m:N}", "directive @o on FIELD", "extend scalar P @q", "extend type R{s:T}", "extend interface U{v:W}",
    "extend union X=Y", "extend enum Z{AA}", "extend input AB{ac:AD}", "\"ae\" scalar AF", "type AG", "schema @d{mutation:Q}",
];
pub const QKINDS: [&str; 8] = ["{a}", "query{b}", "query C{d}", "mutation{e}", "mutation F{g}", "subscription H{i}", "fragment J on K{l}", "{m{n}}"];

/// all sequences of up to n short definitions of every kind
pub fn kinds(ctx: &mut Ctx, m: &str, n: usize, mut f: impl FnMut(&mut Ctx, &[&str])) {
    let k: &[&str] = if m == "q" { &QKINDS } else { &SKINDS };
    ctx.group(&format!("{}: all sequences of <= {} of {} short definitions, one of every kind", m, n, k.len()));
    let mut idx = vec![];
    let mut c = 0;
    seqs(k.len(), n, &mut idx, &mut |v| {
        c += 1;
        if !v.is_empty() && ctx.mine() {
            let w: Vec<&str> = v.iter().map(|i| k[*i]).collect();
            f(ctx, &w);
        }
    });
    ctx.model(c, c - 1);
}
