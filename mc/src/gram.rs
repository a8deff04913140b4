//! G: the grammar as data, run as a pushdown machine over token symbols.
//!
//! A configuration is the stack of grammar nodes still to be matched. Every
//! configuration has at most one successor per symbol (the grammar is LL(1)),
//! so the reachable configurations up to a bracket depth form a finite graph.

use std::collections::HashMap;

pub type S = u8;
pub type Conf = Vec<u16>;

#[derive(Clone, Debug)]
enum Node {
    /// symbols that select this terminal / that match it
    T(u64, u64),
    Seq(Vec<u16>),
    Alt(Vec<u16>),
    Opt(u16),
    Star(u16),
    Ref(u16),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Punct,
    /// any name that is not one of the keywords below
    Name,
    Keyword,
    /// a directive location
    Loc,
    Int,
    Float,
    Str,
    Block,
}

pub struct Gram {
    nodes: Vec<Node>,
    first: Vec<u64>,
    nullable: Vec<bool>,
    min: Vec<Vec<S>>,
    pub syms: Vec<(&'static str, Class)>,
    start: u16,
    closers: u64,
}

pub const PUNCT: [&str; 14] = ["!", "$", "&", "(", ")", "...", ":", "=", "@", "[", "]", "{", "|", "}"];

const COMMON: &str = r#"
Dirs = Dir* ;
Dir = '@' Name Args? ;
Args = '(' Arg Arg* ')' ;
Arg = Name ':' Value ;
Value = Name | Int | Float | Str | Block | '$' Name | '[' Value* ']' | '{' ObjField* '}' ;
ObjField = Name ':' Value ;
Const = Name | Int | Float | Str | Block | '[' Const* ']' | '{' ConstField* '}' ;
ConstField = Name ':' Const ;
Type = ( Name | '[' Type ']' ) '!'? ;
"#;

const QUERY: &str = r#"
Doc = Def Def* ;
Def = Sel | OpKind Name? Vars? Dirs Sel | 'fragment' Name 'on' Name Dirs Sel ;
OpKind = 'query' | 'mutation' | 'subscription' ;
Vars = '(' Var Var* ')' ;
Var = '$' Name ':' Type Default? ;
Default = '=' Const ;
Sel = '{' Item Item* '}' ;
Item = Name Alias? Args? Dirs Sel? | '...' Frag ;
Alias = ':' Name ;
Frag = 'on' Name Dirs Sel | Name Dirs | Dirs Sel ;
"#;

const SCHEMA: &str = r#"
Doc = Def Def* ;
Def = 'schema' Dirs '{' Op* '}' | 'extend' Ext | Described ;
Op = Name ':' Name ;
Described = Desc? Definition ;
Desc = Str | Block ;
Definition = Ext | 'directive' '@' Name ArgsDef? 'repeatable'? 'on' Locs ;
Ext = 'scalar' Name Dirs | ObjKind Name Impl? Dirs Fields? | 'union' Name Dirs Members? | 'enum' Name Dirs Values? | 'input' Name Dirs Inputs? ;
ObjKind = 'type' | 'interface' ;
Impl = 'implements' '&'? Name MoreImpl* ;
MoreImpl = '&' Name ;
Fields = '{' Field Field* '}' ;
Field = Desc? Name ArgsDef? ':' Type Dirs ;
ArgsDef = '(' InputValue InputValue* ')' ;
InputValue = Desc? Name ':' Type Default? Dirs ;
Default = '=' Const ;
Members = '=' '|'? Name MoreMembers* ;
MoreMembers = '|' Name ;
Values = '{' EnumValue EnumValue* '}' ;
EnumValue = Desc? Name Dirs ;
Inputs = '{' InputValue InputValue* '}' ;
Locs = LocList? ;
LocList = '|' Loc MoreLoc* | Loc MoreLoc* ;
MoreLoc = '|' Loc ;
"#;

const KW_Q: [&str; 8] = ["query", "mutation", "subscription", "fragment", "on", "true", "false", "null"];
const KW_S: [&str; 18] = [
    "schema", "extend", "type", "interface", "union", "enum", "input", "scalar", "directive",
    "implements", "repeatable", "on", "true", "false", "null", "query", "mutation", "subscription",
];

struct B<'a> {
    g: Gram,
    toks: Vec<&'a str>,
    i: usize,
    names: HashMap<String, u16>,
}

impl Gram {
    pub fn query() -> Gram {
        Gram::build(QUERY, &KW_Q, false)
    }
    pub fn schema() -> Gram {
        Gram::build(SCHEMA, &KW_S, true)
    }

    fn build(rules: &str, kws: &[&'static str], loc: bool) -> Gram {
        let mut syms: Vec<(&'static str, Class)> = vec![("a", Class::Name)];
        syms.extend(PUNCT.iter().map(|p| (*p, Class::Punct)));
        syms.extend(kws.iter().map(|p| (*p, Class::Keyword)));
        if loc {
            syms.push(("FIELD", Class::Loc));
        }
        syms.push(("1", Class::Int));
        syms.push(("1.5", Class::Float));
        syms.push(("\"s\"", Class::Str));
        syms.push(("\"\"\"b\"\"\"", Class::Block));
        assert!(syms.len() <= 64);
        let text = format!("{}{}", COMMON, rules);
        let g = Gram {
            nodes: vec![],
            first: vec![],
            nullable: vec![],
            min: vec![],
            syms,
            start: 0,
            closers: 0,
        };
        let mut b = B { g, toks: text.split_whitespace().collect(), i: 0, names: HashMap::new() };
        while b.i < b.toks.len() {
            let name = b.toks[b.i];
            assert_eq!(b.toks[b.i + 1], "=");
            b.i += 2;
            let e = b.alt();
            assert_eq!(b.toks[b.i], ";", "after {}", name);
            b.i += 1;
            let n = b.named(name);
            b.g.nodes[n as usize] = Node::Ref(e);
        }
        let start = b.named("Doc");
        let mut g = b.g;
        g.start = start;
        g.closers = g.mask_of(")") | g.mask_of("]") | g.mask_of("}");
        g.analyse();
        g
    }

    pub fn sym(&self, t: &str) -> S {
        self.syms.iter().position(|x| x.0 == t).unwrap_or_else(|| panic!("symbol {}", t)) as S
    }
    fn mask_of(&self, t: &str) -> u64 {
        1 << self.sym(t)
    }
    fn class_mask(&self, f: impl Fn(Class) -> bool) -> u64 {
        let mut m = 0;
        for (i, s) in self.syms.iter().enumerate() {
            if f(s.1) {
                m |= 1 << i;
            }
        }
        m
    }

    fn analyse(&mut self) {
        let n = self.nodes.len();
        self.first = vec![0; n];
        self.nullable = vec![false; n];
        let mut min: Vec<Option<Vec<S>>> = vec![None; n];
        loop {
            let mut changed = false;
            for i in 0..n {
                let (mut f, mut nl, mut m): (u64, bool, Option<Vec<S>>);
                match &self.nodes[i] {
                    Node::T(first, mat) => {
                        f = *first;
                        nl = false;
                        m = Some(vec![mat.trailing_zeros() as S]);
                    }
                    Node::Seq(v) => {
                        f = 0;
                        nl = true;
                        m = Some(vec![]);
                        for x in v {
                            if nl {
                                f |= self.first[*x as usize];
                            }
                            nl &= self.nullable[*x as usize];
                            m = match (m, &min[*x as usize]) {
                                (Some(mut a), Some(b)) => {
                                    a.extend(b);
                                    Some(a)
                                }
                                _ => None,
                            };
                        }
                    }
                    Node::Alt(v) => {
                        f = 0;
                        nl = false;
                        m = None;
                        for x in v {
                            f |= self.first[*x as usize];
                            nl |= self.nullable[*x as usize];
                            if let Some(c) = &min[*x as usize] {
                                if m.as_ref().map_or(true, |m: &Vec<S>| c.len() < m.len()) {
                                    m = Some(c.clone());
                                }
                            }
                        }
                    }
                    Node::Opt(x) | Node::Star(x) => {
                        f = self.first[*x as usize];
                        nl = true;
                        m = Some(vec![]);
                    }
                    Node::Ref(x) => {
                        f = self.first[*x as usize];
                        nl = self.nullable[*x as usize];
                        m = min[*x as usize].clone();
                    }
                }
                f |= self.first[i];
                nl |= self.nullable[i];
                if let (Some(old), Some(new)) = (&min[i], &m) {
                    if new.len() >= old.len() {
                        m = min[i].clone();
                    }
                } else if m.is_none() {
                    m = min[i].clone();
                }
                if f != self.first[i] || nl != self.nullable[i] || m != min[i] {
                    changed = true;
                    self.first[i] = f;
                    self.nullable[i] = nl;
                    min[i] = m;
                }
            }
            if !changed {
                break;
            }
        }
        self.min = min.into_iter().map(|m| m.expect("unproductive rule")).collect();
    }

    pub fn initial(&self) -> Conf {
        vec![self.start]
    }

    pub fn step(&self, c: &Conf, s: S) -> Option<Conf> {
        let bit = 1u64 << s;
        let mut c = c.clone();
        while let Some(top) = c.pop() {
            let t = top as usize;
            match &self.nodes[t] {
                Node::T(_, mat) => {
                    return if mat & bit != 0 { Some(c) } else { None };
                }
                Node::Seq(v) => c.extend(v.iter().rev()),
                Node::Ref(x) => c.push(*x),
                Node::Opt(x) => {
                    if self.first[*x as usize] & bit != 0 {
                        c.push(*x);
                    }
                }
                Node::Star(x) => {
                    if self.first[*x as usize] & bit != 0 {
                        c.push(top);
                        c.push(*x);
                    }
                }
                Node::Alt(v) => {
                    let hit = v
                        .iter()
                        .find(|x| self.first[**x as usize] & bit != 0)
                        .or_else(|| v.iter().find(|x| self.nullable[**x as usize]));
                    match hit {
                        Some(x) => c.push(*x),
                        None => return None,
                    }
                }
            }
        }
        None
    }

    /// A sentence with (nearly) every optional part in it: each optional part
    /// is taken, each repetition once, and an alternative that stands in
    /// several places takes its branches in turn, starting with branch `rot`.
    /// Repetition number `site` is taken `k` times. `every` > 1 takes only
    /// every n-th optional part. Returns the number of repetitions met.
    pub fn rich(&self, rot: usize, every: usize, site: usize, k: usize, out: &mut Vec<S>) -> usize {
        let mut r = Rich { g: self, rot, every, site, k, sites: 0, visits: vec![0; self.nodes.len()], open: vec![0; self.nodes.len()], opts: 0, out };
        r.node(self.start);
        r.sites
    }

    pub fn accepts_end(&self, c: &Conf) -> bool {
        c.iter().all(|x| self.nullable[*x as usize])
    }
    pub fn completion(&self, c: &Conf) -> Vec<S> {
        let mut v = vec![];
        for x in c.iter().rev() {
            v.extend(&self.min[*x as usize]);
        }
        v
    }
    pub fn min_len(&self, c: &Conf) -> usize {
        c.iter().map(|x| self.min[*x as usize].len()).sum()
    }
    /// number of open brackets
    pub fn nest(&self, c: &Conf) -> usize {
        c.iter()
            .filter(|x| matches!(self.nodes[**x as usize], Node::T(_, m) if m & self.closers != 0 && m.count_ones() == 1))
            .count()
    }
    pub fn class(&self, s: S) -> Class {
        self.syms[s as usize].1
    }
}

struct Rich<'a> {
    g: &'a Gram,
    rot: usize,
    every: usize,
    site: usize,
    k: usize,
    sites: usize,
    visits: Vec<usize>,
    /// how often a rule is open
    open: Vec<usize>,
    opts: usize,
    out: &'a mut Vec<S>,
}

impl<'a> Rich<'a> {
    /// does matching this node get back into a rule that is open too often?
    fn deep(&self, n: u16) -> bool {
        match &self.g.nodes[n as usize] {
            Node::Ref(_) => self.open[n as usize] >= 2,
            Node::Seq(v) => v.iter().any(|x| self.deep(*x)),
            Node::Alt(v) => v.iter().all(|x| self.deep(*x)),
            _ => false,
        }
    }
    fn node(&mut self, n: u16) {
        let i = n as usize;
        match &self.g.nodes[i] {
            Node::T(_, m) => {
                // terminals of several symbols: plain names, but each location
                self.out.push(m.trailing_zeros() as S);
            }
            Node::Seq(v) => {
                for x in v {
                    self.node(*x);
                }
            }
            Node::Ref(x) => {
                self.open[i] += 1;
                self.node(*x);
                self.open[i] -= 1;
            }
            Node::Opt(x) => {
                self.opts += 1;
                if !self.deep(*x) && (self.opts + self.rot) % self.every == 0 {
                    self.node(*x);
                }
            }
            Node::Star(x) => {
                if self.deep(*x) {
                    return;
                }
                let me = self.sites;
                self.sites += 1;
                let n = if me == self.site { self.k } else { (self.every == 1 || (me + self.rot) % self.every == 0) as usize };
                let at = self.sites;
                for _ in 0..n {
                    // the repetitions inside count once
                    self.sites = at;
                    self.node(*x);
                }
            }
            Node::Alt(v) => {
                let first = self.rot + self.visits[i];
                self.visits[i] += 1;
                let pick = (0..v.len()).map(|d| v[(first + d) % v.len()]).find(|x| !self.deep(*x));
                match pick {
                    Some(x) => self.node(x),
                    None => {
                        let m = self.g.min[i].clone();
                        self.out.extend(m);
                    }
                }
            }
        }
    }
}

impl<'a> B<'a> {
    fn add(&mut self, n: Node) -> u16 {
        self.g.nodes.push(n);
        (self.g.nodes.len() - 1) as u16
    }
    fn named(&mut self, n: &str) -> u16 {
        if let Some(x) = self.names.get(n) {
            return *x;
        }
        let any = self.g.class_mask(|c| matches!(c, Class::Name | Class::Keyword | Class::Loc));
        let node = match n {
            "Name" => Node::T(any, any),
            "Loc" => Node::T(any, self.g.class_mask(|c| c == Class::Loc)),
            "Int" => Node::T(self.g.class_mask(|c| c == Class::Int), self.g.class_mask(|c| c == Class::Int)),
            "Float" => Node::T(self.g.class_mask(|c| c == Class::Float), self.g.class_mask(|c| c == Class::Float)),
            "Str" => Node::T(self.g.class_mask(|c| c == Class::Str), self.g.class_mask(|c| c == Class::Str)),
            "Block" => Node::T(self.g.class_mask(|c| c == Class::Block), self.g.class_mask(|c| c == Class::Block)),
            _ => Node::Seq(vec![]),
        };
        let x = self.add(node);
        self.names.insert(n.to_string(), x);
        x
    }
    fn alt(&mut self) -> u16 {
        let mut v = vec![self.seq()];
        while self.toks[self.i] == "|" {
            self.i += 1;
            v.push(self.seq());
        }
        if v.len() == 1 {
            v[0]
        } else {
            self.add(Node::Alt(v))
        }
    }
    fn seq(&mut self) -> u16 {
        let mut v = vec![];
        loop {
            let t = self.toks[self.i];
            if t == ";" || t == "|" || t.starts_with(')') {
                break;
            }
            self.i += 1;
            let (body, suffix) = if t == "(" {
                let x = self.alt();
                let c = self.toks[self.i];
                self.i += 1;
                (Some(x), &c[1..])
            } else if let Some(b) = t.strip_suffix('?') {
                (None, if b.is_empty() { "" } else { "?" })
            } else if let Some(b) = t.strip_suffix('*') {
                (None, if b.is_empty() { "" } else { "*" })
            } else {
                (None, "")
            };
            let x = match body {
                Some(x) => x,
                None => {
                    let b = &t[..t.len() - suffix.len()];
                    if let Some(lit) = b.strip_prefix('\'') {
                        let m = self.g.mask_of(lit.trim_end_matches('\''));
                        self.add(Node::T(m, m))
                    } else {
                        self.named(b)
                    }
                }
            };
            let x = match suffix {
                "?" => self.add(Node::Opt(x)),
                "*" => self.add(Node::Star(x)),
                _ => x,
            };
            v.push(x);
        }
        if v.len() == 1 {
            v[0]
        } else {
            self.add(Node::Seq(v))
        }
    }
}

/// The explored graph of configurations.
pub struct Graph {
    pub confs: Vec<Conf>,
    /// shortest word that reaches the configuration
    pub word: Vec<Vec<S>>,
    /// per configuration, successors inside the bound
    pub next: Vec<Vec<(S, usize)>>,
    /// (configuration, symbol) that leave the bound
    pub over: Vec<(usize, S)>,
    pub transitions: u64,
    pub index: HashMap<Conf, usize>,
}

impl Graph {
    pub fn explore(g: &Gram, nest: usize) -> Graph {
        let init = g.initial();
        let mut gr = Graph {
            confs: vec![init.clone()],
            word: vec![vec![]],
            next: vec![],
            over: vec![],
            transitions: 0,
            index: HashMap::new(),
        };
        gr.index.insert(init, 0);
        let mut i = 0;
        while i < gr.confs.len() {
            let c = gr.confs[i].clone();
            let mut out = vec![];
            for s in 0..g.syms.len() as S {
                if let Some(d) = g.step(&c, s) {
                    gr.transitions += 1;
                    if g.nest(&d) > nest {
                        gr.over.push((i, s));
                        continue;
                    }
                    let j = match gr.index.get(&d) {
                        Some(j) => *j,
                        None => {
                            let j = gr.confs.len();
                            gr.confs.push(d.clone());
                            let mut w = gr.word[i].clone();
                            w.push(s);
                            gr.word.push(w);
                            gr.index.insert(d, j);
                            j
                        }
                    };
                    out.push((s, j));
                }
            }
            gr.next.push(out);
            i += 1;
        }
        gr
    }

    /// shortest non-empty word from configuration `i` back to itself whose
    /// first symbol is `s`
    pub fn cycle(&self, i: usize, s: S) -> Option<Vec<S>> {
        let (_, j) = *self.next[i].iter().find(|x| x.0 == s)?;
        if j == i {
            return Some(vec![s]);
        }
        let mut prev: HashMap<usize, (usize, S)> = HashMap::new();
        let mut queue = std::collections::VecDeque::new();
        queue.push_back(j);
        prev.insert(j, (usize::MAX, s));
        while let Some(x) = queue.pop_front() {
            for (t, y) in &self.next[x] {
                if *y == i {
                    let mut w = vec![*t];
                    let mut at = x;
                    loop {
                        let (p, t) = prev[&at];
                        w.push(t);
                        if p == usize::MAX {
                            break;
                        }
                        at = p;
                    }
                    w.reverse();
                    return Some(w);
                }
                if !prev.contains_key(y) {
                    prev.insert(*y, (x, *t));
                    queue.push_back(*y);
                }
            }
        }
        None
    }
}

impl Graph {
    /// one shortest cycle per (first symbol, second symbol) at a configuration,
    /// keyword spellings of plain names left out
    pub fn cycles(&self, g: &Gram, i: usize) -> Vec<Vec<S>> {
        let mut out: Vec<Vec<S>> = vec![];
        let plain = |k: usize, s: S| -> bool {
            let generic = self.next[k].iter().find(|x| g.class(x.0) == Class::Name).map(|x| x.1);
            let t = self.next[k].iter().find(|x| x.0 == s).map(|x| x.1);
            !(matches!(g.class(s), Class::Keyword | Class::Loc) && t == generic)
        };
        for (s, j) in &self.next[i] {
            if !plain(i, *s) {
                continue;
            }
            if let Some(c) = self.cycle(i, *s) {
                if !out.contains(&c) {
                    out.push(c);
                }
            }
            for (t, k) in &self.next[*j] {
                if !plain(*j, *t) {
                    continue;
                }
                let back = if *k == i { Some(vec![]) } else { self.path(*k, i) };
                if let Some(b) = back {
                    let mut c = vec![*s, *t];
                    c.extend(b);
                    if !out.contains(&c) {
                        out.push(c);
                    }
                }
            }
        }
        out
    }
    /// for every configuration of nesting depth <= `head` and every transition
    /// on a cycle with it one such cycle; once up to rotation
    pub fn edge_cycles(&self, g: &Gram, head: usize, f: &mut dyn FnMut(usize, &[S])) {
        let n = self.confs.len();
        let mut rev: Vec<Vec<(S, usize)>> = vec![vec![]; n];
        let plain: Vec<Vec<(S, usize)>> = (0..n)
            .map(|k| {
                let generic = self.next[k].iter().find(|x| g.class(x.0) == Class::Name).map(|x| x.1);
                self.next[k].iter().filter(|x| !(matches!(g.class(x.0), Class::Keyword | Class::Loc) && Some(x.1) == generic)).copied().collect()
            })
            .collect();
        for (k, v) in plain.iter().enumerate() {
            for (s, j) in v {
                rev[*j].push((*s, k));
            }
        }
        let bfs = |from: usize, adj: &Vec<Vec<(S, usize)>>| {
            let mut prev: Vec<Option<(usize, S)>> = vec![None; n];
            let mut queue = std::collections::VecDeque::from([from]);
            let mut seen = vec![false; n];
            seen[from] = true;
            while let Some(x) = queue.pop_front() {
                for (t, y) in &adj[x] {
                    if !seen[*y] {
                        seen[*y] = true;
                        prev[*y] = Some((x, *t));
                        queue.push_back(*y);
                    }
                }
            }
            (seen, prev)
        };
        let mut known: std::collections::HashSet<Vec<S>> = Default::default();
        for i in 0..n {
            if g.nest(&self.confs[i]) > head {
                continue;
            }
            let (seen, there) = bfs(i, &plain);
            let (reach, back) = bfs(i, &rev);
            for u in 0..n {
                if !seen[u] {
                    continue;
                }
                for (s, v) in &plain[u] {
                    if !reach[*v] {
                        continue;
                    }
                    let mut w = vec![];
                    let mut at = u;
                    while let Some((p, t)) = there[at] {
                        w.push(t);
                        at = p;
                    }
                    w.reverse();
                    w.push(*s);
                    let mut at = *v;
                    while let Some((p, t)) = back[at] {
                        w.push(t);
                        at = p;
                    }
                    let canon = (0..w.len()).map(|k| [&w[k..], &w[..k]].concat()).min().unwrap();
                    if known.insert(canon) {
                        f(i, &w);
                    }
                }
            }
        }
    }
    /// shortest word from configuration a to b
    pub fn path(&self, a: usize, b: usize) -> Option<Vec<S>> {
        let mut prev: HashMap<usize, (usize, S)> = HashMap::new();
        let mut queue = std::collections::VecDeque::new();
        queue.push_back(a);
        prev.insert(a, (usize::MAX, 0));
        while let Some(x) = queue.pop_front() {
            if x == b {
                let mut w = vec![];
                let mut at = x;
                loop {
                    let (p, t) = prev[&at];
                    if p == usize::MAX {
                        break;
                    }
                    w.push(t);
                    at = p;
                }
                w.reverse();
                return Some(w);
            }
            for (t, y) in &self.next[x] {
                if !prev.contains_key(y) {
                    prev.insert(*y, (x, *t));
                    queue.push_back(*y);
                }
            }
        }
        None
    }
}
