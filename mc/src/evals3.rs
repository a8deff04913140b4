use crate::dump::{self, Opt};
use crate::build;
use crate::d;
use crate::engine::{guard, V};
use crate::evals::{idump, rparse, STYLES, STYLES_FEW};
use crate::imp::{self, Out};
use crate::lexref::*;
use crate::{sys, visit};
use graphql_parser::query::Document as QDocument;
use graphql_parser::schema::Document as SDocument;
use graphql_parser::Pos;
use crate::refparse::EK;

fn bad(m: impl Into<String>) -> V {
    V::Bad(m.into())
}

// ---------------------------------------------------------------- C25

/// the items of an error's list of expectations
fn expected(msg: &str) -> Vec<String> {
    let mut v = vec![];
    for l in msg.lines() {
        if let Some(l) = l.strip_prefix("Expected ") {
            v.extend(l.split(", ").flat_map(|x| x.split(" or ")).map(|x| x.trim().to_string()));
        }
    }
    v
}

/// could the text before byte `at` go on with this item?
fn viable(m: &str, src: &str, at: usize, ntok: usize, item: &str) -> bool {
    let words: &[&str] = match item {
        "another name" => &["n"],
        // a location is a name as well
        "Name" => &["n", "FIELD"],
        "IntValue" => &["1"],
        "FloatValue" => &["1.5"],
        "StringValue" => &["\"s\""],
        "BlockString" => &["\"\"\"b\"\"\""],
        "end of input" => &[""],
        x => &[x],
    };
    words.iter().any(|word| {
        // the tokens before, without the error
        let t = format!("{}\n{}", &src[..at], word);
        match rparse(m, &t, PARSER) {
            Ok(_) => true,
            Err(e) => e.tok > ntok || (!word.is_empty() && e.kind == EK::Semantic),
        }
    })
}

pub fn messages(_: &str, a: &[&str]) -> V {
    let (m, src) = (a[0], a[1]);
    let want = match rparse(m, src, PARSER) {
        Ok(_) => return V::Skip,
        Err(e) => e,
    };
    let msg = match idump(m, src) {
        Out::Crash(e) => return bad(format!("parser panicked: {}", e)),
        Out::Ok(_) => return V::Skip,
        Out::Err(e) => e,
    };
    // an error somewhere else is not for this property
    match imp::errpos(&msg) {
        Some(p) if p == want.pos || p == want.alt => {}
        _ => return V::Skip,
    }
    let lx = lex(src, PARSER);
    let named: Vec<&str> = msg.lines().skip(1).filter_map(|l| l.strip_prefix("Unexpected ")).collect();
    match want.kind {
        EK::Syntax => {
            let mut cls = 1;
            match (lx.toks.get(want.tok), lx.end) {
                (Some(t), _) => {
                    let text = t.text(src);
                    let head = format!("`{}[", text);
                    if t.k == K::Name && viable(m, src, t.s, want.tok, "FIELD") && !viable(m, src, t.s, want.tok, "another name") {
                        // a name, but not one of a location
                        if !msg.contains("location") {
                            return bad(format!("{} is no directive location, the error does not say so: {}", text, msg));
                        }
                        return V::Ok(5);
                    }
                    if !msg.contains(&head) {
                        let k1 = LexOpts { k1: true, ..PARSER };
                        if lex(src, k1).toks.len() <= want.tok && named.first() == Some(&format!("unsupported float {:?}", text).as_str()) {
                            return V::Known("K1");
                        }
                        return bad(format!("the text goes wrong at the token {}, the error does not name it: {}", text, msg));
                    }
                }
                (None, End::Eof { .. }) => {
                    cls = 2;
                    if named != ["end of input"] {
                        return bad(format!("the text ends too early, the error does not say so: {}", msg));
                    }
                }
                (None, _) => {
                    cls = 3;
                    if named.iter().any(|n| n.starts_with('`')) || named.first() == Some(&"end of input") {
                        return bad(format!("the text goes wrong at a malformed token, the error does not say so: {}", msg));
                    }
                }
            }
            let at = match lx.toks.get(want.tok) {
                Some(t) => t.s,
                None => match lx.toks.last() {
                    Some(t) => t.e,
                    None => 0,
                },
            };
            let items = expected(&msg);
            if items.is_empty() {
                return bad(format!("the error expects nothing: {}", msg));
            }
            if !items.iter().any(|i| viable(m, src, at, want.tok, i)) {
                return bad(format!("nothing the error expects could stand there: {}", msg));
            }
            V::Ok(cls)
        }
        EK::Deep => V::Skip,
        _ => {
            if msg.lines().skip(1).all(|l| l.trim().is_empty()) {
                return bad(format!("the error gives no reason: {}", msg));
            }
            if want.kind == EK::Semantic {
                let i = lx.toks.iter().position(|t| t.pos == want.pos).unwrap_or(0);
                if lx.toks.get(i).map(|t| t.text(src)) == Some("schema") {
                    let t: Vec<&str> = lx.toks[i..].iter().map(|t| t.text(src)).collect();
                    // the operations stand in the first braces outside of directives' arguments
                    let mut depth = 0;
                    let mut j = 0;
                    while j < t.len() && !(t[j] == "{" && depth == 0) {
                        depth += (t[j] == "(") as i32 - (t[j] == ")") as i32;
                        j += 1;
                    }
                    let ops: Vec<&str> = t[(j + 1).min(t.len())..].iter().take_while(|x| **x != "}").step_by(3).copied().collect();
                    for (k, o) in ops.iter().enumerate() {
                        let fault = !matches!(*o, "query" | "mutation" | "subscription") || ops[..k].contains(o);
                        if fault && !msg.contains(&format!("`{}", o)) {
                            return bad(format!("the operation {} is at fault, the error does not name it: {}", o, msg));
                        }
                    }
                }
            }
            V::Ok(4)
        }
    }
}

// ---------------------------------------------------------------- C26

/// lines of a text of `count` repetitions
pub fn repeated(a: &[&str], count: usize) -> String {
    let mut s = String::with_capacity(a[1].len() + a[3].len() + count * a[2].len());
    s.push_str(a[1]);
    // \u{1} stands for something else in each repetition
    let fresh = a[2].contains('\u{1}');
    for i in 0..count {
        if fresh {
            s.push_str(&a[2].replace('\u{1}', &format!("_{:05x}", i)));
        } else {
            s.push_str(a[2]);
        }
    }
    s.push_str(a[3]);
    s
}

const SMALL: usize = 8 << 10;
const FACTOR: usize = 32;

/// what is measured
fn work(m: &str, src: &str) -> Result<(), String> {
    fn done<T>(o: Out<T>) -> Result<(), String> {
        match o {
            Out::Crash(e) => Err(e),
            _ => Ok(()),
        }
    }
    match m {
        "q" => match imp::query(src) {
            Out::Ok(d) => {
                for (i, ml) in [(2, false), (2, true)] {
                    imp::qformat(&d, &imp::style(i, ml))?;
                }
                Ok(())
            }
            o => done(o),
        },
        "s" => match imp::schema(src) {
            Out::Ok(d) => {
                for (i, ml) in [(2, false), (2, true)] {
                    imp::sformat(&d, &imp::style(i, ml))?;
                }
                Ok(())
            }
            o => done(o),
        },
        "m" => done(imp::minify(src)),
        _ => {
            let mut rest = src;
            loop {
                match imp::consume(rest) {
                    Out::Ok((_, r)) if r.len() < rest.len() => rest = r,
                    o => return done(o),
                }
            }
        }
    }
}

/// a text is made `FACTOR` times longer by repeating a part; the time may not
/// grow six times more than that
pub fn cost(_: &str, a: &[&str]) -> V {
    let n = (SMALL / a[2].len().max(1)).max(1);
    let small = repeated(a, n);
    let big = repeated(a, n * FACTOR);
    let time = |s: &str| -> Result<u64, String> {
        let t = sys::cpu_ns();
        work(a[0], s)?;
        Ok(sys::cpu_ns() - t)
    };
    let (mut ts, mut tb) = (u64::MAX, u64::MAX);
    for round in 0..6 {
        // the shortest time of several is the one least disturbed
        for _ in 0..3 {
            match time(&small) {
                Ok(t) => ts = ts.min(t),
                Err(m) => return bad(format!("panicked: {}", m)),
            }
        }
        match time(&big) {
            Ok(t) => tb = tb.min(t),
            Err(m) => return bad(format!("panicked: {}", m)),
        }
        // never less than 20 ns per byte, so that a fast small run is no yardstick
        let unit = ts.max(small.len() as u64 * 20);
        if tb <= unit * FACTOR as u64 * 6 {
            return V::Ok(((tb * 10 / (unit * FACTOR as u64)) as u32).min(60));
        }
        if round == 5 {
            return bad(format!("{} bytes take {} us, {} bytes take {} us", small.len(), ts / 1000, big.len(), tb / 1000));
        }
    }
    unreachable!()
}

// ---------------------------------------------------------------- C27

/// 0.0 and -0.0 are equal numbers
fn signless(s: &str) -> String {
    s.replace("Float(8000000000000000)", "Float(0000000000000000)")
}

pub fn equality(kind: &str, a: &[&str]) -> V {
    if kind == "pos" {
        let n: Vec<usize> = a.iter().map(|x| x.parse().unwrap()).collect();
        let (x, y) = (Pos { line: n[0], column: n[1] }, Pos { line: n[2], column: n[3] });
        let (tx, ty) = ((n[0], n[1]), (n[2], n[3]));
        if x.cmp(&y) != tx.cmp(&ty) || x.partial_cmp(&y) != Some(tx.cmp(&ty)) || (x == y) != (tx == ty) || (x < y) != (tx < ty) {
            return bad(format!("positions {:?} and {:?} compare as {:?}", tx, ty, x.cmp(&y)));
        }
        if x.to_string() != format!("{}:{}", n[0], n[1]) {
            return bad(format!("position {:?} prints as {}", tx, x));
        }
        let hash = |p: &Pos| {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            p.hash(&mut h);
            h.finish()
        };
        if x == y && hash(&x) != hash(&y) {
            return bad(format!("equal positions {:?} have different hashes", tx));
        }
        return V::Ok(0);
    }
    if kind == "style" {
        let same = a[0] == a[2] && a[1] == a[3];
        let st = |i: &str, k: &str| {
            let mut s = graphql_parser::Style::default();
            s.indent(i.parse().unwrap()).multiline_arguments(k == "1");
            s
        };
        let (x, y) = (st(a[0], a[1]), st(a[2], a[3]));
        if (x == y) != same || (x != y) == same || (x.clone() == y) != same || x.clone() != x {
            return bad(format!("styles set to {:?} and {:?} compare as {}", &a[..2], &a[2..], if x == y { "equal" } else { "unequal" }));
        }
        let d = graphql_parser::Style::default();
        if (d == x) != (a[0] == "2" && a[1] == "0") {
            return bad(format!("a style set to {:?} and the default compare as {}", &a[..2], if d == x { "equal" } else { "unequal" }));
        }
        return V::Ok(same as u32);
    }
    if kind == "location" {
        use graphql_parser::schema::DirectiveLocation as L;
        let (x, y) = match (a[0].parse::<L>(), a[1].parse::<L>()) {
            (Ok(x), Ok(y)) => (x, y),
            _ => return V::Skip,
        };
        let same = a[0] == a[1];
        if (x == y) != same || (x.clone() == y) != same || (x != y) == same {
            return bad(format!("the locations {} and {} compare as {}", a[0], a[1], if x == y { "equal" } else { "unequal" }));
        }
        return V::Ok(same as u32);
    }
    let (m, s, t) = (a[0], a[1], a[2]);
    macro_rules! go {
        ($parse:ident, $owned:expr, $f:ident, $dump:path) => {{
            let (x, y) = match (imp::$parse(s), imp::$parse(t)) {
                (Out::Ok(x), Out::Ok(y)) => (x, y),
                (Out::Crash(e), _) | (_, Out::Crash(e)) => return bad(format!("panicked: {}", e)),
                _ => return V::Skip,
            };
            let o = Opt::default();
            let (dx, dy) = (signless(&$dump(&x, o)), signless(&$dump(&y, o)));
            let same = dx == dy;
            if (x == y) != same || (x != y) == same || (y == x) != same {
                return bad(format!("two texts whose ASTs are {} compare as {}: {:?} and {:?}", if same { "the same" } else { "different" }, if x == y { "equal" } else { "unequal" }, s, t));
            }
            // each definition on its own, and as owned text
            for (i, p) in x.definitions.iter().enumerate() {
                for (j, q) in y.definitions.iter().enumerate() {
                    if i == j || x.definitions.len() * y.definitions.len() <= 16 {
                        let same = signless(&dump::$f(p, o)) == signless(&dump::$f(q, o));
                        if (p == q) != same {
                            return bad(format!("definitions {} and {} are {}, but compare as {}: {:?} and {:?}", i, j, if same { "the same" } else { "different" }, if p == q { "equal" } else { "unequal" }, s, t));
                        }
                    }
                }
            }
            let c = x.clone();
            if !(c == x) || $dump(&c, o) != $dump(&x, o) {
                return bad(format!("a clone is not the same as its original: {:?}", s));
            }
            let (xs, ys) = match (imp::wrap(|| $owned(s)), imp::wrap(|| $owned(t))) {
                (Out::Ok(x), Out::Ok(y)) => (x, y),
                _ => return V::Skip,
            };
            if (xs == ys) != same || xs.clone() != xs {
                return bad(format!("owned ASTs that are {} compare as {}: {:?} and {:?}", if same { "the same" } else { "different" }, if xs == ys { "equal" } else { "unequal" }, s, t));
            }
            V::Ok(same as u32)
        }};
    }
    if m == "q" {
        go!(query, graphql_parser::parse_query::<String>, qdef, dump::qdoc)
    } else {
        go!(schema, graphql_parser::parse_schema::<String>, sdef, dump::sdoc)
    }
}

// ---------------------------------------------------------------- C28

const ODD: [(usize, usize); 5] = [(0, 0), (1, 1), (usize::MAX, usize::MAX), (7, 0), (1, 80)];

pub fn content(kind: &str, a: &[&str]) -> V {
    let styles: &[(u32, bool)] = &STYLES_FEW;
    if kind == "text" {
        // the same tokens in other layouts, and with other positions
        let (m, s, t) = (a[0], a[1], a[2]);
        macro_rules! go {
            ($parse:ident, $fmt:ident, $pos:path) => {{
                let (mut x, y) = match (imp::$parse(s), imp::$parse(t)) {
                    (Out::Ok(x), Out::Ok(y)) => (x, y),
                    (Out::Crash(e), _) | (_, Out::Crash(e)) => return bad(format!("panicked: {}", e)),
                    _ => return V::Skip,
                };
                let mut want = vec![];
                for (i, ml) in styles {
                    let st = imp::style(*i, *ml);
                    match (imp::$fmt(&x, &st), imp::$fmt(&y, &st)) {
                        (Ok(p), Ok(q)) if p == q => want.push(p),
                        (Ok(p), Ok(q)) => return bad(format!("the same tokens, laid out as {:?} and as {:?}, print as\n{}and as\n{}", s, t, p, q)),
                        (Err(e), _) | (_, Err(e)) => return bad(format!("formatting panicked: {}", e)),
                    }
                }
                let shown = imp::show(&x);
                let mut n = 0u32;
                for (k, odd) in ODD.iter().enumerate() {
                    $pos(&mut x, &mut |p| {
                        n += 1;
                        *p = Pos { line: odd.0, column: odd.1 };
                        if k == 3 {
                            // each one another
                            *p = Pos { line: 1000 - n as usize % 997, column: n as usize % 83 };
                        }
                    });
                    for ((i, ml), w) in styles.iter().zip(&want) {
                        match imp::$fmt(&x, &imp::style(*i, *ml)) {
                            Ok(p) if p == *w => {}
                            Ok(p) => return bad(format!("with all positions {:?} {:?} prints as\n{}otherwise as\n{}", odd, s, p, w)),
                            Err(e) => return bad(format!("with all positions {:?} formatting {:?} panics: {}", odd, s, e)),
                        }
                    }
                    if imp::show(&x) != shown {
                        return bad(format!("with all positions {:?} {:?} displays as {:?}, otherwise as {:?}", odd, s, imp::show(&x), shown));
                    }
                }
                V::Ok(1 + n.min(300) / 5)
            }};
        }
        return if m == "q" { go!(query, qformat, visit::qpos) } else { go!(schema, sformat, visit::spos) };
    }
    // definitions built step by step: kind, steps, kind, steps, ...
    let o = Opt::default();
    macro_rules! go {
        ($m:literal, $build:path, $doc:ident, $dump:path, $fmt:ident, $pos:path, $owned:expr) => {{
            let mut defs = vec![];
            let mut text = String::new();
            for k in a.chunks(2) {
                let (d, t) = match guard(|| $build(k[0], k[1])) {
                    Ok(x) => x,
                    Err(e) => return bad(format!("building {} {} panicked: {}", k[0], k[1], e)),
                };
                defs.push(d);
                text += &t;
                text.push('\n');
            }
            let doc = $doc { definitions: defs };
            // a text the grammar refuses says nothing (no fields, an empty extension)
            let want = match rparse($m, &text, PARSER) {
                Ok(x) => d::strip(&x),
                Err(_) => return V::Skip,
            };
            let got = d::strip(&$dump(&doc, o));
            if got != want {
                return bad(format!("{:?} built by hand is\n{}, the text {} is\n{}", a, got, text, want));
            }
            for (i, ml) in STYLES {
                match imp::$fmt(&doc, &imp::style(i, ml)) {
                    Err(e) => return bad(format!("formatting {:?} panicked: {}", a, e)),
                    Ok(p) => match imp::map(imp::wrap(|| $owned(&p)), |x| d::strip(&$dump(&x, o))) {
                        Out::Ok(x) if x == want => {}
                        x => return bad(format!("built as {}, printed as\n{}and read back as {:?}", text, p, x)),
                    },
                }
            }
            // and the same as when the text is parsed, but for the positions
            match imp::wrap(|| $owned(&text)) {
                Out::Ok(x) => {
                    let mut x = x.into_static();
                    $pos(&mut x, &mut |p| *p = Pos::default());
                    if x != doc {
                        return bad(format!("{:?} built by hand does not equal what is parsed from {}", a, text));
                    }
                }
                Out::Err(_) => return V::Skip,
                Out::Crash(e) => return bad(format!("panicked: {}", e)),
            }
            V::Ok(0)
        }};
    }
    if kind == "q" {
        go!("q", build::qbuild, QDocument, dump::qdoc, qformat, visit::qpos, graphql_parser::parse_query::<String>)
    } else {
        go!("s", build::sbuild, SDocument, dump::sdoc, sformat, visit::spos, graphql_parser::parse_schema::<String>)
    }
}
