//! Families of inputs, built from the explored grammar graphs.

use crate::engine::Ctx;
use crate::gen::*;
use crate::gram::*;

pub struct Lang {
    pub m: &'static str,
    pub g: Gram,
}

impl Lang {
    pub fn q() -> Lang {
        Lang { m: "q", g: Gram::query() }
    }
    pub fn s() -> Lang {
        Lang { m: "s", g: Gram::schema() }
    }
    fn title(&self) -> &'static str {
        if self.m == "q" {
            "query"
        } else {
            "schema"
        }
    }
}

/// what to do with the tokens of one base sentence of this shard
pub type Sink<'a> = dyn FnMut(&mut Ctx, &[String]) + 'a;

fn base(ctx: &mut Ctx, l: &Lang, w: &[S], m: Names, f: &mut Sink) {
    if ctx.mine() {
        f(ctx, &render(&l.g, w, m));
    }
}

pub fn transitions(ctx: &mut Ctx, l: &Lang, nest: usize, m: Names, what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, a sentence per transition, bracket depth <= {}, {}", l.title(), nest, what));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    crate::gen::transitions(&l.g, &gr, |w| base(ctx, l, w, m, f));
}

pub fn negatives(ctx: &mut Ctx, l: &Lang, nest: usize, m: Names, what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, every configuration x every symbol without transition + truncations, bracket depth <= {}, {}", l.title(), nest, what));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    crate::gen::negatives(&l.g, &gr, |w| base(ctx, l, w, m, f));
}

pub fn splices(ctx: &mut Ctx, l: &Lang, nest: usize, m: Names, what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, the way to every configuration x the way out of every configuration, bracket depth <= {}, {}", l.title(), nest, what));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    crate::gen::splices(&l.g, &gr, |w| base(ctx, l, w, m, f));
}

/// a cycle through every transition from every configuration of depth <= 1,
/// repeated
pub fn edge_pumps(ctx: &mut Ctx, l: &Lang, nest: usize, ks: &[usize], what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, every loop from depth <= 1 through every transition, {:?} times, bracket depth <= {}, {}", l.title(), ks, nest, what));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    gr.edge_cycles(&l.g, 1, &mut |i, cycle| {
        if ctx.mine() {
            let tail = l.g.completion(&gr.confs[i]);
            for k in ks {
                let mut w = gr.word[i].clone();
                for _ in 0..*k {
                    w.extend(cycle);
                }
                w.extend(&tail);
                f(ctx, &render(&l.g, &w, Names::Uniq));
            }
        }
    });
}

pub fn all(ctx: &mut Ctx, l: &Lang, n: usize, m: Names, what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, all sentences of <= {} tokens, {}", l.title(), n, what));
    let a = All::new(&l.g, n, true);
    ctx.model_of(&format!("{} {}", l.m, (n / 2).min(6)), a.graph().confs.len() as u64, a.graph().transitions);
    a.each(n, &mut |w| base(ctx, l, w, m, f));
}

/// sentences of the full alphabet (keywords as names too)
pub fn all_full(ctx: &mut Ctx, l: &Lang, n: usize, what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, all sentences of <= {} tokens with keywords as names, {}", l.title(), n, what));
    let a = All::new(&l.g, n, false);
    ctx.model_of(&format!("{} {}", l.m, (n / 2).min(6)), a.graph().confs.len() as u64, a.graph().transitions);
    a.each(n, &mut |w| base(ctx, l, w, Names::Uniq, f));
}

pub fn pumps(ctx: &mut Ctx, l: &Lang, nest: usize, ks: &[usize], what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, every loop pumped {:?} times, bracket depth <= {}, {}", l.title(), ks, nest, what));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    crate::gen::pumps(&l.g, &gr, ks, |w, _| base(ctx, l, w, Names::Uniq, f));
}

/// counts at which something may change: all small ones, then those around
/// powers of two and round numbers
pub fn counts(small: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=small).collect();
    for p in 5..20 {
        for d in [-1i64, 0, 1] {
            v.push(((1i64 << p) + d) as usize);
        }
    }
    v.extend([50, 51, 60, 99, 100, 101, 200, 300, 500, 1000, 5000, 10000]);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

/// sentences with every optional part in them (`every` = 1) or every n-th,
/// and in each one repetition taken each number of times
pub fn rich(ctx: &mut Ctx, l: &Lang, every: &[usize], rots: usize, ks: &[usize], m: Names, what: &str, f: &mut Sink) {
    let shown = if ks.len() > 12 { format!("0..{} ({} numbers)", ks[ks.len() - 1], ks.len()) } else { format!("{:?}", ks) };
    ctx.group(&format!("{} grammar, full sentences (every part, every {:?}-th optional part), {} rotations of the alternatives, each repetition {} times, {}", l.title(), every, rots, shown, what));
    let mut n = 0;
    for e in every {
        for rot in 0..rots {
            let mut w = vec![];
            let sites = l.g.rich(rot, *e, usize::MAX, 1, &mut w);
            base(ctx, l, &w, m, f);
            n += w.len() as u64;
            for site in 0..sites {
                for k in ks {
                    if ctx.mine() {
                        w.clear();
                        l.g.rich(rot, *e, site, *k, &mut w);
                        f(ctx, &render(&l.g, &w, m));
                    }
                    n += 1;
                }
            }
        }
    }
    ctx.model(n, n);
}

/// as `pumps`, each loop body in one context only
pub fn distinct_pumps(ctx: &mut Ctx, l: &Lang, nest: usize, ks: &[usize], what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, every loop body {:?} times, bracket depth <= {}, {}", l.title(), ks, nest, what));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    let mut seen = std::collections::HashSet::new();
    crate::gen::loops(&l.g, &gr, |i, body| {
        // the same body in the same kind of place
        let mut key = body.to_vec();
        key.push(255);
        key.extend(l.g.completion(&gr.confs[i]));
        if !seen.insert(key) {
            return;
        }
        for k in ks {
            if ctx.mine() {
                let mut w = gr.word[i].clone();
                for _ in 0..*k {
                    w.extend(body);
                }
                w.extend(l.g.completion(&gr.confs[i]));
                f(ctx, &render(&l.g, &w, Names::Uniq));
            }
        }
    });
}

/// pumped sentences with at most `max` names: the names alike or different in
/// every way, out of two
pub fn two_names(ctx: &mut Ctx, l: &Lang, nest: usize, ks: &[usize], max: usize, what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, every loop {:?} times, bracket depth <= {}, <= {} names, each of two names in each place, {}", l.title(), ks, nest, max, what));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    crate::gen::pumps(&l.g, &gr, ks, |w, _| {
        let slots: Vec<usize> = (0..w.len()).filter(|i| l.g.class(w[*i]) == Class::Name).collect();
        if slots.len() < 2 || slots.len() > max || !ctx.mine() {
            return;
        }
        let mut t = render(&l.g, w, Names::Uniq);
        // the first name is always `a`
        for bits in 0..1u32 << (slots.len() - 1) {
            for (k, i) in slots.iter().enumerate() {
                t[*i] = if (bits << 1) >> k & 1 == 1 { "b" } else { "a" }.to_string();
            }
            f(ctx, &t);
        }
    });
}

/// pairs of different loop bodies in sequence: x y, y x, x y x
pub fn loop_pairs(ctx: &mut Ctx, l: &Lang, nest: usize, what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, loop bodies in pairs, bracket depth <= {}, {}", l.title(), nest, what));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    for i in 0..gr.confs.len() {
        let cycles = gr.cycles(&l.g, i);
        let tail = l.g.completion(&gr.confs[i]);
        for a in &cycles {
            for b in &cycles {
                let mut w = gr.word[i].clone();
                w.extend(a);
                w.extend(b);
                w.extend(&tail);
                base(ctx, l, &w, Names::Uniq, f);
            }
        }
    }
}

/// the sentence with each token that `menu` knows replacements for replaced in turn
pub fn substitute(toks: &[String], menu: &mut dyn FnMut(usize, &str) -> Vec<&'static str>, f: &mut dyn FnMut(&[String])) {
    let mut v: Vec<String> = toks.to_vec();
    for i in 0..toks.len() {
        for w in menu(i, &toks[i]) {
            v[i].clear();
            v[i].push_str(w);
            f(&v);
        }
        v[i] = toks[i].clone();
    }
}

pub fn is_name(t: &str) -> bool {
    matches!(t.as_bytes()[0], b'_' | b'a'..=b'z' | b'A'..=b'Z')
}
pub fn name_menu(t: &str) -> Vec<&'static str> {
    if is_name(t) {
        NAME_WORDS.to_vec()
    } else {
        vec![]
    }
}
pub fn value_menu(t: &str) -> Vec<&'static str> {
    let b = t.as_bytes();
    match b[0] {
        b'"' if t.starts_with("\"\"\"") => BLOCK_WORDS.to_vec(),
        b'"' => STR_WORDS.to_vec(),
        b'-' | b'0'..=b'9' if t.contains('.') => FLOAT_WORDS.to_vec(),
        b'-' | b'0'..=b'9' => INT_WORDS.to_vec(),
        _ => vec![],
    }
}

/// neighbouring names and values replaced together, out of short menus
const PAIR_NAMES: [&str; 14] = ["a", "on", "true", "null", "query", "type", "id", "if", "deprecated", "include", "repeatable", "__typename", "String", "Query"];
const PAIR_VALUES: [&str; 9] = ["0", "-1", "0.5", "\"\"", "\"a\\nb\"", "\"No longer supported\"", "\"\"\"\"\"\"", "\"\"\"x\n y\"\"\"", "9223372036854775807"];

pub fn pairs(ctx: &mut Ctx, l: &Lang, nest: usize, what: &str, f: &mut Sink) {
    ctx.group(&format!("{} grammar, each two neighbouring names or values replaced by each pair of {} names or {} literals, bracket depth <= {}, {}", l.title(), PAIR_NAMES.len(), PAIR_VALUES.len(), nest, what));
    let gr = Graph::explore(&l.g, nest);
    ctx.model_of(&format!("{} {}", l.m, nest), gr.confs.len() as u64, gr.transitions);
    // a pair is tried once with all that comes before it and one token after
    let mut seen = std::collections::HashSet::new();
    crate::gen::transitions(&l.g, &gr, |w| {
        let menu = |i: usize| match l.g.class(w[i]) {
            Class::Name => Some(&PAIR_NAMES[..]),
            Class::Int | Class::Float | Class::Str | Class::Block => Some(&PAIR_VALUES[..]),
            _ => None,
        };
        let slots: Vec<(usize, &[&str])> = (0..w.len()).filter_map(|i| menu(i).map(|m| (i, m))).collect();
        for p in slots.windows(2) {
            if !seen.insert(w[..w.len().min(p[1].0 + 2)].to_vec()) || !ctx.mine() {
                continue;
            }
            let mut v = render(&l.g, w, Names::Uniq);
            for a in p[0].1 {
                v[p[0].0] = a.to_string();
                for b in p[1].1 {
                    v[p[1].0] = b.to_string();
                    f(ctx, &v);
                }
            }
        }
    });
}

const DIRECTIVES: [&str; 22] = [
    "@ deprecated", "@ deprecated ( reason : \"No longer supported\" )", "@ deprecated ( reason : \"\" )", "@ deprecated ( reason : \"\"\"x\n  y\"\"\" )", "@ deprecated ( reason : null )",
    "@ deprecated ( reason : \"a\" ) @ deprecated", "@ include ( if : true )", "@ include ( if : false )", "@ skip ( if : false )", "@ skip ( if : true )", "@ skip ( if : false ) @ include ( if : true )",
    "@ include ( if : $ n )", "@ skip ( if : $ if )", "@ specifiedBy ( url : \"http://a/b#c\" )", "@ oneOf", "@ a @ a", "@ b @ a", "@ a ( x : 1 x : 2 )", "@ a ( y : 1 x : 2 )", "@ a ( x : [ ] )", "@ a ( x : { } )", "@ on ( on : on )",
];

/// directives as people write them, in the place of each directive
pub fn idioms(ctx: &mut Ctx, l: &Lang, nest: usize, f: &mut Sink) {
    transitions(ctx, l, nest, Names::Uniq, "each directive replaced by each of 22 usual ones", &mut |c, t| {
        for i in 0..t.len() {
            if t[i] != "@" || (i > 0 && t[i - 1] == "directive") {
                continue;
            }
            let mut end = i + 2;
            if t.get(end).is_some_and(|x| x == "(") {
                end += t[end..].iter().position(|x| x == ")").map_or(0, |p| p + 1);
            }
            for d in DIRECTIVES {
                let mut v = t[..i].to_vec();
                v.extend(split_tokens(d));
                v.extend_from_slice(&t[end.min(t.len())..]);
                f(c, &v);
            }
        }
    });
    ctx.group("definitions as people write them");
    for d in if l.m == "q" { &QIDIOMS[..] } else { &SIDIOMS[..] } {
        if ctx.mine() {
            f(ctx, &split_tokens(d));
        }
    }
}

pub fn split_tokens(s: &str) -> Vec<String> {
    let lx = crate::lexref::lex(s, crate::lexref::PARSER);
    lx.toks.iter().map(|t| t.text(s).to_string()).collect()
}

const QIDIOMS: [&str; 14] = [
    "{ __typename }", "{ __schema { queryType { name } types { ...FullType } } } fragment FullType on __Type { kind name fields(includeDeprecated: true) { name args { ...InputValue } } } fragment InputValue on __InputValue { name type { ofType { ofType { kind } } } defaultValue }",
    "query IntrospectionQuery { __type(name: \"T\") { name } }", "{ id: id }", "{ a: b b: a }", "query Query { query { query } }", "mutation Mutation { mutation }", "subscription Subscription($subscription: Subscription) { subscription(subscription: $subscription) }",
    "query ($id: ID! = \"1\" $n: Int = 0 $b: Boolean = false $f: Float = 0.5 $s: String = \"\" $l: [ID!]! = []) { node(id: $id) { id } }", "{ node(id: \"1\") { ... on User { id } ... @include(if: true) { id } ...F } } fragment F on User { id }",
    "{ node(id: 1 first: null) { id, } }", "query Q { a } query R { a }", "fragment fragment on on { on }", "{ ... { a } ... on on { a } ...onn }",
];
const SIDIOMS: [&str; 26] = [
    "schema { query: Query }", "schema { query: Query mutation: Mutation }", "schema { query: Query mutation: Mutation subscription: Subscription }", "schema { mutation: Mutation }", "schema { subscription: Subscription }", "schema { query: query mutation: mutation subscription: subscription }",
    "schema { query: Mutation mutation: Query }", "schema { query: Query } type Query { a: Int }", "type Query { a: Int } type Mutation { a: Int } type Subscription { a: Int }", "scalar Int scalar Float scalar String scalar Boolean scalar ID",
    "scalar DateTime @specifiedBy(url: \"http://a\")", "directive @deprecated(reason: String = \"No longer supported\") on FIELD_DEFINITION | ENUM_VALUE", "directive @include(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT",
    "directive @skip(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT", "directive @specifiedBy(url: String!) on SCALAR", "directive @oneOf on INPUT_OBJECT", "directive @repeatable repeatable on SCHEMA",
    "interface Node { id: ID! } type User implements Node { id: ID! name: String @deprecated }", "interface Node { id: ID! } interface Resource implements Node { id: ID! }", "type A implements B & C & A { a: A }", "type A implements A { a: A }", "union U = A union V = A | B union W",
    "enum Role { ADMIN USER @deprecated(reason: \"a\") } input I { a: Role = ADMIN b: [Role!] = [ADMIN, USER] c: Int = null }", "extend type Query { b: Int } extend scalar Query @a", "\"\" type Query { \"\" a: Int }", "input Input { input: Input = {input: {input: null}} }",
];

/// all strings of at most n letters of an alphabet, shortest first
pub fn words(alpha: &[&str], n: usize, mut f: impl FnMut(&str)) -> u64 {
    let mut count = 0;
    let mut idx: Vec<usize>;
    let mut s = String::new();
    for len in 0..=n {
        idx = vec![0; len];
        loop {
            s.clear();
            for i in &idx {
                s.push_str(alpha[*i]);
            }
            f(&s);
            count += 1;
            let mut k = len;
            loop {
                if k == 0 {
                    break;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < alpha.len() {
                    k = usize::MAX;
                    break;
                }
                idx[k] = 0;
            }
            if k != usize::MAX {
                break;
            }
        }
    }
    count
}

/// runs `words` as a case family; model states = strings, transitions = letters appended
pub fn word_cases(ctx: &mut Ctx, name: &str, alpha: &[&str], n: usize, mut f: impl FnMut(&mut Ctx, &str)) {
    ctx.group(&format!("{}: all strings of <= {} letters over {} letters {:?}", name, n, alpha.len(), alpha));
    let c = words(alpha, n, |s| {
        if ctx.mine() {
            f(ctx, s);
        }
    });
    ctx.model(c, c - 1);
}
