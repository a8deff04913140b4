//! Judges of single cases. Every function is a pure function of its strings,
//! so that a recorded violation can be replayed.

use crate::d;
use crate::dump::{self, Opt};
use crate::engine::V;
use crate::imp::{self, Out};
use crate::lexref::*;
use crate::refparse::{self, EK, R};
use graphql_parser::query as q;

pub const STYLES: [(u32, bool); 12] = [
    (2, false), (2, true), (0, false), (0, true), (4, false), (4, true), (1, false), (1, true),
    (3, false), (3, true), (8, false), (8, true),
];
pub const STYLES_WIDE: [(u32, bool); 17] = [
    (5, true), (6, false), (7, true), (9, false), (10, true), (12, false), (15, true), (16, true), (17, false), (31, true), (40, false), (64, true), (100, false), (100, true), (127, false), (256, true), (1000, false),
];
pub const STYLES_FEW: [(u32, bool); 4] = [(2, false), (2, true), (0, true), (5, false)];

fn bad(m: impl Into<String>) -> V {
    V::Bad(m.into())
}

pub fn rparse(m: &str, src: &str, o: LexOpts) -> Result<String, refparse::RErr> {
    if m == "q" {
        refparse::query(src, o)
    } else {
        refparse::schema(src, o)
    }
}
pub fn idump(m: &str, src: &str) -> Out<String> {
    if m == "q" {
        imp::qdump(src)
    } else {
        imp::sdump(src)
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(kind: &str, a: &[&str]) -> V {
    let src = match kind {
        "rep" => {
            // prefix, repeated part, count, suffix
            let n: usize = a[2].parse().unwrap();
            format!("{}{}{}", a[0], a[1].repeat(n), a[3])
        }
        _ => a[0].to_string(),
    };
    let src = src.as_str();
    let mut class = 0;
    match imp::minify(src) {
        Out::Crash(m) => return bad(format!("minify_query panicked: {}", m)),
        Out::Ok(_) => class |= 1,
        Out::Err(_) => {}
    }
    match imp::consume(src) {
        Out::Crash(m) => return bad(format!("consume_definition panicked: {}", m)),
        Out::Ok(_) => class |= 2,
        Out::Err(_) => {}
    }
    let styles: &[(u32, bool)] = match kind {
        "two" => &STYLES[..2],
        "few" => &STYLES_FEW,
        "wide" => &STYLES_WIDE,
        _ => &STYLES,
    };
    match imp::query(src) {
        Out::Crash(m) => return bad(format!("parse_query panicked: {}", m)),
        Out::Ok(doc) => {
            class |= 4;
            for (i, ml) in styles {
                if let Err(m) = imp::qformat(&doc, &imp::style(*i, *ml)) {
                    return bad(format!("formatting the query (indent {}, multiline {}) panicked: {}", i, ml, m));
                }
            }
            if let Err(m) = imp::show(&doc) {
                return bad(format!("displaying the query panicked: {}", m));
            }
        }
        Out::Err(_) => {}
    }
    match imp::schema(src) {
        Out::Crash(m) => return bad(format!("parse_schema panicked: {}", m)),
        Out::Ok(doc) => {
            class |= 8;
            for (i, ml) in styles {
                if let Err(m) = imp::sformat(&doc, &imp::style(*i, *ml)) {
                    return bad(format!("formatting the schema (indent {}, multiline {}) panicked: {}", i, ml, m));
                }
            }
            if let Err(m) = imp::show(&doc) {
                return bad(format!("displaying the schema panicked: {}", m));
            }
        }
        Out::Err(_) => {}
    }
    V::Ok(class)
}

// ---------------------------------------------------------------- C02, C03

pub fn roundtrip(kind: &str, a: &[&str]) -> V {
    let (m, src) = (a[0], a[1]);
    let styles: &[(u32, bool)] = match kind {
        "two" => &STYLES[..2],
        "few" => &STYLES_FEW,
        "wide" => &STYLES_WIDE,
        _ => &STYLES,
    };
    macro_rules! go {
        ($parse:path, $fmt:path, $dump:path) => {{
            let doc = match $parse(src) {
                Out::Ok(x) => x,
                Out::Err(_) => return V::Skip,
                Out::Crash(m) => return bad(format!("parser panicked: {}", m)),
            };
            let full = d::strip(&$dump(&doc, Opt::default()));
            let mut known = false;
            for (i, ml) in styles {
                let st = imp::style(*i, *ml);
                let what = format!("indent {}, multiline_arguments {}", i, ml);
                let text = match $fmt(&doc, &st) {
                    Ok(t) => t,
                    Err(m) => return bad(format!("formatting panicked ({}): {}", what, m)),
                };
                let again = match $parse(&text) {
                    Out::Ok(x) => x,
                    Out::Err(e) => return bad(format!("formatted text ({}) is rejected: {}\n--- formatted\n{}", what, e, text)),
                    Out::Crash(m) => return bad(format!("parser panicked on formatted text ({}): {}\n{}", what, m, text)),
                };
                let d2 = d::strip(&$dump(&again, Opt::default()));
                if d2 != full {
                    // K2: integral floats come back as integers, nothing else may differ
                    if d2 == d::strip(&$dump(&doc, Opt { k2: true })) {
                        known = true;
                        continue;
                    }
                    return bad(format!("AST changed by formatting ({})\n--- before\n{}--- after\n{}--- formatted\n{}", what, full, d2, text));
                }
                match $fmt(&again, &st) {
                    Ok(t2) if t2 == text => {}
                    Ok(t2) => return bad(format!("formatting is not stable ({})\n--- first\n{}--- second\n{}", what, text, t2)),
                    Err(m) => return bad(format!("formatting panicked ({}): {}", what, m)),
                }
            }
            if known {
                V::Known("K2")
            } else {
                V::Ok((full.len() as u32).min(400))
            }
        }};
    }
    if m == "q" {
        go!(imp::query, imp::qformat, dump::qdoc)
    } else {
        go!(imp::schema, imp::sformat, dump::sdoc)
    }
}

// ---------------------------------------------------------------- C04, C06

pub fn accept(_: &str, a: &[&str]) -> V {
    let (m, src) = (a[0], a[1]);
    let want = rparse(m, src, PARSER);
    match (&want, idump(m, src)) {
        (_, Out::Crash(e)) => bad(format!("parser panicked: {}", e)),
        (Ok(_), Out::Ok(_)) => V::Ok(1),
        (Err(e), Out::Err(_)) => V::Ok(match e.kind {
            EK::Syntax => 2,
            EK::BadValue => 3,
            EK::Semantic => 4,
            EK::Deep => 5,
        }),
        (Ok(_), Out::Err(e)) => bad(format!("the grammar allows this text, the parser rejects it: {}", e)),
        (Err(r), Out::Ok(x)) => bad(format!("the grammar does not allow this text ({:?} at {}:{}), the parser accepts it as\n{}", r.kind, r.pos.0, r.pos.1, d::strip(&x))),
    }
}

// ---------------------------------------------------------------- C05, C07

pub fn ast(_: &str, a: &[&str]) -> V {
    let (m, src) = (a[0], a[1]);
    let want = match rparse(m, src, PARSER) {
        Ok(x) => x,
        Err(_) => return V::Skip,
    };
    match idump(m, src) {
        Out::Crash(e) => bad(format!("parser panicked: {}", e)),
        Out::Err(_) => V::Skip,
        Out::Ok(x) => {
            let (w, x) = (d::strip(&want), d::strip(&x));
            if w == x {
                V::Ok((w.len() as u32).min(400))
            } else {
                bad(format!("the text says\n{}the AST says\n{}", w, x))
            }
        }
    }
}

// ---------------------------------------------------------------- C13

pub fn positions(_: &str, a: &[&str]) -> V {
    let (m, src) = (a[0], a[1]);
    let want = match rparse(m, src, PARSER) {
        Ok(x) => x,
        Err(_) => return V::Skip,
    };
    match idump(m, src) {
        Out::Crash(e) => bad(format!("parser panicked: {}", e)),
        Out::Err(_) => V::Skip,
        Out::Ok(x) => {
            if want == x {
                return V::Ok((want.matches('\x01').count() as u32).min(200));
            }
            if d::strip(&want) != d::strip(&x) {
                return V::Skip;
            }
            let show = |s: &str| s.replace('\x01', "<").replace('\x02', ">");
            bad(format!("expected positions\n{}got\n{}", show(&want), show(&x)))
        }
    }
}

// ---------------------------------------------------------------- C14

pub fn errors(_: &str, a: &[&str]) -> V {
    let (m, src) = (a[0], a[1]);
    let want = match rparse(m, src, PARSER) {
        Ok(_) => return V::Skip,
        Err(e) => e,
    };
    match idump(m, src) {
        Out::Crash(e) => bad(format!("parser panicked: {}", e)),
        Out::Ok(_) => V::Skip,
        Out::Err(e) => match imp::errpos(&e) {
            None => bad(format!("the error names no position: {}", e)),
            Some(p) if p == want.pos || p == want.alt => V::Ok(match want.kind {
                EK::Syntax => 1,
                EK::BadValue => 2,
                EK::Semantic => 3,
                EK::Deep => 4,
            }),
            Some(p) if matches!(rparse(m, src, LexOpts { k1: true, ..PARSER }), Err(r) if p == r.pos || p == r.alt) => V::Known("K1"),
            Some(_) => bad(format!("expected an error at {}:{} ({:?}), got: {}", want.pos.0, want.pos.1, want.kind, e)),
        },
    }
}

// ---------------------------------------------------------------- C15

pub fn depth(_: &str, a: &[&str]) -> V {
    let (m, src) = (a[0], a[1]);
    let want = rparse(m, src, PARSER);
    let mut got = vec![("parse", idump(m, src))];
    if m == "q" {
        // these two see the same bracket first
        got.push(("consume_definition", {
            let o = imp::consume(src);
            imp::map(o, |_| String::new())
        }));
    }
    for (what, g) in got {
        match (&want, g) {
            (_, Out::Crash(e)) => return bad(format!("{} panicked: {}", what, e)),
            (Ok(_), Out::Ok(_)) => {}
            (Ok(_), Out::Err(e)) => {
                return bad(format!("{}: never more than 50 deep, but rejected: {}", what, e));
            }
            (Err(r), Out::Err(e)) if r.kind == EK::Deep => {
                if !e.contains("Recursion limit exceeded") {
                    return bad(format!("{}: more than 50 deep at {}:{}, but the error is: {}", what, r.pos.0, r.pos.1, e));
                }
                if imp::errpos(&e) != Some(r.pos) {
                    return bad(format!("{}: the bracket that is too deep is at {}:{}, but the error is: {}", what, r.pos.0, r.pos.1, e));
                }
            }
            (Err(r), Out::Ok(_)) if r.kind == EK::Deep => {
                if what == "parse" || first_def_deep(src) {
                    return bad(format!("{}: more than 50 deep at {}:{}, but accepted", what, r.pos.0, r.pos.1));
                }
            }
            (Err(_), Out::Err(e)) => {
                if e.contains("Recursion limit exceeded") {
                    return bad(format!("{}: never more than 50 deep, but rejected for depth: {}", what, e));
                }
            }
            (Err(_), Out::Ok(_)) => {}
        }
    }
    if m == "q" && want.is_ok() {
        if let Out::Err(e) = imp::minify(src) {
            return bad(format!("minify_query: never more than 50 deep, but rejected: {}", e));
        }
    }
    V::Ok(match want {
        Ok(_) => 0,
        Err(e) if e.kind == EK::Deep => 1,
        Err(_) => 2,
    })
}
fn first_def_deep(src: &str) -> bool {
    matches!(R::new(src, PARSER).one(), Err(e) if e.kind == EK::Deep)
}

// ---------------------------------------------------------------- C08

fn join_min(src: &str, t: &[Tok]) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            let p = &t[i - 1];
            let num = matches!(p.k, K::Int | K::Float);
            if (p.k != K::Punct && x.k != K::Punct) || (num && x.text(src) == "...") {
                s.push(' ');
            }
        }
        s.push_str(x.text(src));
    }
    s
}

/// the expected result of minify_query (None: lexical error)
fn want_min(src: &str, o: LexOpts) -> Option<String> {
    let l = lex(src, o);
    match l.end {
        End::Eof { .. } => Some(join_min(src, &l.toks)),
        _ => None,
    }
}

pub fn tokens(kind: &str, a: &[&str]) -> V {
    let t = a[0];
    let mut known = false;
    let k1 = LexOpts { k1: true, ..PARSER };
    let got = match imp::minify(t) {
        Out::Crash(e) => return bad(format!("minify_query panicked: {}", e)),
        Out::Ok(x) => Some(x),
        Out::Err(_) => None,
    };
    let want = want_min(t, PARSER);
    if got != want {
        if got == want_min(t, k1) {
            known = true;
        } else {
            return bad(format!("tokens of the text (joined as minify_query does): expected {:?}, got {:?}", want, got));
        }
    }
    let ctxs: &[(&str, &str, &str)] = match kind {
        "values" => &[("q", "{a(b:[", "])}"), ("s", "type A{a(b:T=[", "]):T}")],
        _ => &[("q", "{a(b:[", "])}"), ("q", "{", "}"), ("q", "", ""), ("s", "", "")],
    };
    let mut class = want.is_some() as u32;
    for (m, pre, post) in ctxs {
        let src = format!("{}{}{}", pre, t, post);
        let want = rparse(m, &src, PARSER).map(|x| d::strip(&x)).ok();
        let got = match idump(m, &src) {
            Out::Crash(e) => return bad(format!("parser panicked on {:?}: {}", src, e)),
            Out::Ok(x) => Some(d::strip(&x)),
            Out::Err(_) => None,
        };
        if want.is_some() {
            class |= 2;
        }
        if got != want {
            if got == rparse(m, &src, k1).map(|x| d::strip(&x)).ok() {
                known = true;
            } else {
                return bad(format!("in {:?}: expected {:?}, got {:?}", src, want, got));
            }
        }
    }
    if known {
        V::Known("K1")
    } else {
        V::Ok(class)
    }
}

// ---------------------------------------------------------------- C09, C10

pub fn literal(kind: &str, a: &[&str]) -> V {
    let lit = match kind {
        "str" => format!("\"{}\"", a[0]),
        "block" => format!("\"\"\"{}\"\"\"", a[0]),
        k => panic!("kind {}", k),
    };
    let places: [(&str, String); 4] = [
        ("q", format!("{{a(b:{})}}", lit)),
        ("s", format!("{} type A{{a:T}}", lit)),
        ("q", format!("query($v:T=[{{k:{}}}]){{a @d(e:{})}}", lit, lit)),
        ("s", format!("type A{{{} a({} b:T={} @d(e:{})):T}}", lit, lit, lit, lit)),
    ];
    let mut class = 0;
    for (m, src) in &places {
        let want = rparse(m, src, PARSER).map(|x| d::strip(&x));
        match (want, idump(m, src)) {
            (_, Out::Crash(e)) => return bad(format!("parser panicked on {:?}: {}", src, e)),
            (Ok(w), Out::Ok(x)) => {
                let x = d::strip(&x);
                if w != x {
                    return bad(format!("in {:?}: the text says\n{}the AST says\n{}", src, w, x));
                }
                class |= 1;
            }
            (Err(_), Out::Err(_)) => class |= 2,
            (Ok(w), Out::Err(e)) => return bad(format!("{:?} is a valid literal ({}), but: {}", src, w, e)),
            (Err(_), Out::Ok(x)) => return bad(format!("{:?} holds no valid literal, but is accepted as {}", src, d::strip(&x))),
        }
    }
    V::Ok(class)
}

// ---------------------------------------------------------------- C12

fn numval<'a>(v: &q::Value<'a, &'a str>) -> String {
    dump::value(v, Opt::default())
}
fn only_arg<'a, 'b>(doc: &'b imp::QDoc<'a>) -> Option<&'b q::Value<'a, &'a str>> {
    match doc.definitions.first()? {
        q::Definition::Operation(q::OperationDefinition::SelectionSet(s)) => match s.items.first()? {
            q::Selection::Field(f) => f.arguments.first().map(|x| &x.1),
            _ => None,
        },
        _ => None,
    }
}

/// prints the value on its own and in a document, reads it back
fn reread<'a>(v: &q::Value<'a, &'a str>) -> Result<V, String> {
    let want = numval(v);
    let shown = imp::show(v).map_err(|m| format!("printing panicked: {}", m))?;
    let mut known = false;
    let doc = q::Document::<&str> {
        definitions: vec![q::Definition::Operation(q::OperationDefinition::SelectionSet(q::SelectionSet {
            span: Default::default(),
            items: vec![q::Selection::Field(q::Field {
                position: Default::default(),
                alias: None,
                name: "a",
                arguments: vec![("b", q::Value::List(vec![v.clone(), v.clone()])), ("c", v.clone())],
                directives: vec![],
                selection_set: q::SelectionSet { span: Default::default(), items: vec![] },
            })],
        }))],
    };
    let mut texts = vec![format!("{{a(b:[{} {}] c:{})}}", shown, shown, shown)];
    for (i, m) in [(2, false), (2, true)] {
        texts.push(imp::qformat(&doc, &imp::style(i, m)).map_err(|m| format!("printing panicked: {}", m))?);
    }
    for t in texts {
        let got = match imp::query(&t) {
            Out::Ok(x) => dump::qdoc(&x, Opt::default()),
            Out::Err(e) => return Err(format!("{} prints as {:?}, which is rejected: {}", want, t, e)),
            Out::Crash(e) => return Err(format!("parser panicked on {:?}: {}", t, e)),
        };
        let got = d::strip(&got);
        let exp = d::strip(&dump::qdoc(&doc, Opt::default()));
        if got != exp {
            if got == d::strip(&dump::qdoc(&doc, Opt { k2: true })) {
                known = true;
            } else {
                return Err(format!("{} prints as {:?}, which reads back as {}", want, t, got));
            }
        }
    }
    Ok(if known { V::Known("K2") } else { V::Ok(4) })
}

pub fn number(kind: &str, a: &[&str]) -> V {
    match kind {
        "lexeme" => {
            let src = format!("{{a(b:{})}}", a[0]);
            let want = rparse("q", &src, PARSER).map(|x| d::strip(&x)).ok();
            let doc = imp::query(&src);
            let got = match &doc {
                Out::Crash(e) => return bad(format!("parser panicked on {:?}: {}", src, e)),
                Out::Ok(x) => Some(d::strip(&dump::qdoc(x, Opt::default()))),
                Out::Err(_) => None,
            };
            if want != got {
                if got == rparse("q", &src, LexOpts { k1: true, ..PARSER }).map(|x| d::strip(&x)).ok() {
                    return V::Known("K1");
                }
                return bad(format!("{:?}: expected {:?}, got {:?}", src, want, got));
            }
            match &doc {
                Out::Ok(x) => match only_arg(x) {
                    Some(v) => match reread(v) {
                        Ok(v) => v,
                        Err(m) => bad(m),
                    },
                    None => V::Ok(1),
                },
                _ => V::Ok(2),
            }
        }
        "float" => {
            let f = f64::from_bits(u64::from_str_radix(a[0], 16).unwrap());
            if f.is_nan() {
                return V::Skip;
            }
            match reread(&q::Value::Float(f)) {
                Ok(v) => v,
                Err(m) => bad(m),
            }
        }
        "i32" => {
            // a range of 32-bit integers
            let lo: i64 = a[0].parse().unwrap();
            let hi: i64 = a[1].parse().unwrap();
            let r = crate::engine::guard(|| {
                for i in lo..hi {
                    let n = q::Number::from(i as i32).as_i64();
                    if n != Some(i) {
                        return Err(format!("Number::from({}).as_i64() is {:?}", i, n));
                    }
                }
                Ok(())
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return bad(m),
                Err(m) => return bad(format!("Number of {}..{} panicked: {}", lo, hi, m)),
            }
            V::Ok(5)
        }
        k => panic!("kind {}", k),
    }
}

// ---------------------------------------------------------------- C16

pub fn minify(_: &str, a: &[&str]) -> V {
    let src = a[0];
    let l = lex(src, PARSER);
    let lexed = matches!(l.end, End::Eof { .. });
    let got = match imp::minify(src) {
        Out::Crash(e) => return bad(format!("minify_query panicked: {}", e)),
        Out::Ok(x) => x,
        Out::Err(e) => {
            if refparse::query(src, PARSER).is_ok() {
                return bad(format!("minify_query rejects a valid query document: {}", e));
            }
            return V::Ok(0);
        }
    };
    if !lexed {
        return V::Skip;
    }
    let want = join_min(src, &l.toks);
    if got != want {
        return bad(format!("expected {:?}, got {:?}", want, got));
    }
    // by construction of `want`: the same tokens again
    let l2 = lex(&got, PLAIN);
    if l2.toks.len() != l.toks.len() || l.toks.iter().zip(&l2.toks).any(|(x, y)| x.k != y.k || x.text(src) != y.text(&got)) {
        return bad(format!("the output {:?} does not hold the same tokens", got));
    }
    match imp::minify(&got) {
        Out::Ok(x) if x == got => {}
        o => return bad(format!("minifying {:?} again gives {:?}", got, o)),
    }
    if let Out::Ok(before) = imp::qdump(src) {
        match imp::qdump(&got) {
            Out::Ok(after) if d::strip(&after) == d::strip(&before) => V::Ok(2),
            Out::Ok(after) => bad(format!("minified {:?}\nbefore {}after {}", got, d::strip(&before), d::strip(&after))),
            Out::Err(e) => bad(format!("minified {:?} is rejected: {}", got, e)),
            Out::Crash(e) => bad(format!("parser panicked on minified {:?}: {}", got, e)),
        }
    } else {
        V::Ok(1)
    }
}

// ---------------------------------------------------------------- C17

pub fn consume(_: &str, a: &[&str]) -> V {
    let src = a[0];
    let want = R::new(src, PARSER).one();
    let got = imp::consume(src);
    let (want, off) = match (want, &got) {
        (_, Out::Crash(e)) => return bad(format!("consume_definition panicked: {}", e)),
        (Err(_), Out::Err(_)) => return V::Ok(0),
        (Err(r), Out::Ok(x)) => {
            return bad(format!("no prefix is a definition ({:?} at {}:{}), but consumed {}", r.kind, r.pos.0, r.pos.1, d::strip(&dump::qdef(&x.0, Opt::default()))))
        }
        (Ok(w), Out::Err(e)) => return bad(format!("the text starts with the definition {}, but: {}", d::strip(&w.0), e)),
        (Ok(w), Out::Ok(_)) => w,
    };
    let (def, rest) = match got {
        Out::Ok(x) => x,
        _ => unreachable!(),
    };
    if rest.as_ptr() != src[off..].as_ptr() || rest.len() != src.len() - off {
        return bad(format!("expected the rest {:?}, got {:?}", &src[off..], rest));
    }
    let dd = d::strip(&dump::qdef(&def, Opt::default()));
    if d::strip(&want) != dd {
        return bad(format!("expected the definition {}, got {}", d::strip(&want), dd));
    }
    let doc = match imp::query(src) {
        Out::Ok(d) => d,
        Out::Crash(e) => return bad(format!("parse_query panicked: {}", e)),
        Out::Err(_) => return V::Ok(1),
    };
    if dump::qdef(&doc.definitions[0], Opt::default()) != dump::qdef(&def, Opt::default()) {
        return bad("not the definition parse_query gives first".to_string());
    }
    // one by one
    let mut defs = vec![dd];
    let mut rest = rest;
    while !rest.is_empty() {
        match imp::consume(rest) {
            Out::Ok((x, r)) => {
                defs.push(d::strip(&dump::qdef(&x, Opt::default())));
                if r.len() >= rest.len() {
                    return bad("nothing consumed");
                }
                rest = r;
            }
            Out::Err(e) => return bad(format!("definition {} of {:?}: {}", defs.len() + 1, rest, e)),
            Out::Crash(e) => return bad(format!("consume_definition panicked: {}", e)),
        }
    }
    let whole: Vec<String> = doc.definitions.iter().map(|x| d::strip(&dump::qdef(x, Opt::default()))).collect();
    if whole != defs {
        return bad(format!("one by one {:?}, whole {:?}", defs, whole));
    }
    V::Ok(1 + whole.len().min(60) as u32)
}

// ---------------------------------------------------------------- C18

pub fn ignored(_: &str, a: &[&str]) -> V {
    let (m, base, var) = (a[0], a[1], a[2]);
    match (idump(m, base), idump(m, var)) {
        (Out::Crash(e), _) | (_, Out::Crash(e)) => bad(format!("parser panicked: {}", e)),
        (Out::Ok(x), Out::Ok(y)) => {
            let (x, y) = (d::strip(&x), d::strip(&y));
            if x == y {
                V::Ok(1)
            } else {
                bad(format!("the AST changes from\n{}to\n{}", x, y))
            }
        }
        (Out::Err(_), Out::Err(_)) => V::Ok(0),
        (Out::Ok(_), Out::Err(e)) => bad(format!("accepted without, rejected with the ignored text: {}", e)),
        (Out::Err(e), Out::Ok(_)) => bad(format!("accepted with the ignored text, rejected without: {}", e)),
    }
}

