use crate::d;
use crate::dump::{self, Opt};
use crate::engine::{guard, V};
use crate::evals::{idump, STYLES, STYLES_FEW, STYLES_WIDE};
use crate::imp::{self, Out};
use crate::lexref::*;
use crate::refparse::{self, LOCS};
use crate::visit::{self, QN, SN};
use graphql_parser::query as q;
use graphql_parser::schema as s;
use std::borrow::Cow;

fn bad(m: impl Into<String>) -> V {
    V::Bad(m.into())
}

// ---------------------------------------------------------------- C11

/// one place for a string each; \x40 marks nest deeper
pub const QPLACES: [&str; 15] = [
    r#"{a(b:"@")}"#,
    r#"{a(b:["@" "@"])}"#,
    r#"{a(b:{k:"@" l:1})}"#,
    r#"{a(x:1 b:[[{k:["@"]}] {l:{m:"@"}}] y:"@")}"#,
    r#"{a @d(b:"@")}"#,
    r#"{a @d(b:[{k:"@"}]){b}}"#,
    r#"{a{b{c(d:"@" e:["@"]){f(g:{h:"@"})}}}}"#,
    r#"query Q($v:T="@" $w:[T!]!=["@"]){a}"#,
    r#"query($v:T={k:["@"]})@d(e:"@"){a}"#,
    r#"mutation M($v:T="@")@d(e:{k:"@"}){a(b:"@")}"#,
    r#"subscription($v:T="@" $w:T)@d(e:"@"){a(b:"@")}"#,
    r#"fragment F on T @d(e:"@"){a(b:"@")}"#,
    r#"{a{...F @d(e:"@") ...on T @d(e:"@"){b(c:"@")}}}"#,
    r#"{...@d(e:["@"]){b{c(d:"@")}}}"#,
    r#"{a b:c(d:$e f:"@" g:true) h}"#,
];
pub const SPLACES: [&str; 17] = [
    r#""@" scalar A"#,
    r#""@" type A{"@" b("@" c:T="@" "@" d:T @e(f:"@")):T @g(h:"@")}"#,
    r#""@" interface A{"@" b:T "@" c:T}"#,
    r#""@" union A @d(e:"@")=B|C"#,
    r#""@" enum A @d(e:"@"){"@" B "@" C @d(e:"@")}"#,
    r#""@" input A{"@" b:T="@" "@" c:T=["@" {k:"@"}] @d(e:"@")}"#,
    r#""@" directive @a("@" b:T="@" "@" c:T) on FIELD"#,
    r#"schema @d(e:"@"){query:Q}"#,
    r#"extend scalar A @d(e:"@")"#,
    r#"extend type A @d(e:["@"]){"@" b("@" c:T={k:"@"}):T}"#,
    r#"extend interface A @d(e:"@"){"@" b:T}"#,
    r#"extend union A @d(e:"@")=B"#,
    r#"extend enum A @d(e:"@"){"@" B}"#,
    r#"extend input A @d(e:"@"){"@" b:T="@"}"#,
    r#"type A implements B @d(e:"@") @f(g:{h:["@"]})"#,
    r#"scalar A @d(e:"@") type B{a:T} "@" type C"#,
    r#"type A{a(b:T=["@" "@"]):T "@" c("@" d:T):T}"#,
];

pub fn printing(kind: &str, a: &[&str]) -> V {
    let text = a[0];
    let styles: &[(u32, bool)] = match kind {
        "few" => &STYLES_FEW,
        "two" => &STYLES[..2],
        _ => &STYLES,
    };
    let mut places = 0;
    let one = kind == "one" || kind == "uni";
    let ks: &[usize] = if kind == "uni" { &[0] } else { &[0, 4, 6] };
    let styles = if one { &styles[..1] } else { styles };
    macro_rules! go {
        ($places:expr, $parse:path, $strings:path, $fmt:path) => {
            for (k, place) in $places.iter().enumerate() {
                if one && !ks.contains(&k) {
                    continue;
                }
                let mut doc = match $parse(place) {
                    Out::Ok(d) => d,
                    _ => continue,
                };
                let mut n = 0;
                $strings(&mut doc, &mut |s| {
                    n += 1;
                    s.clear();
                    s.push_str(text);
                });
                places += n;
                for (i, ml) in styles {
                    let what = format!("{} printed with indent {}, multiline_arguments {}", place, i, ml);
                    let out = match $fmt(&doc, &imp::style(*i, *ml)) {
                        Ok(x) => x,
                        Err(m) => return bad(format!("{}: panicked: {}", what, m)),
                    };
                    let mut again = match $parse(&out) {
                        Out::Ok(x) => x,
                        Out::Err(e) => return bad(format!("{} is rejected: {}\n{}", what, e, out)),
                        Out::Crash(e) => return bad(format!("{}: the parser panicked: {}\n{}", what, e, out)),
                    };
                    let mut k = 0;
                    let mut err = None;
                    $strings(&mut again, &mut |s| {
                        k += 1;
                        if s != text {
                            err = Some(s.clone());
                        }
                    });
                    if let Some(e) = err {
                        return bad(format!("{}: {:?} reads back as {:?}\n{}", what, text, e, out));
                    }
                    if k != n {
                        return bad(format!("{}: {} strings printed, {} read back\n{}", what, n, k, out));
                    }
                }
            }
        };
    }
    // only Display differs for these: a value on its own
    let v = q::Value::<String>::String(text.to_string());
    match imp::show(&v) {
        Err(m) => return bad(format!("displaying the value panicked: {}", m)),
        Ok(t) => {
            let src = format!("{{a(b:{})}}", t);
            let want = format!("{}=", "b") + &d::string(text);
            match imp::qdump(&src) {
                Out::Ok(x) if x.contains(&want) => {}
                o => return bad(format!("{:?} displays as {}, which reads back as {:?}", text, t, o)),
            }
        }
    }
    go!(QPLACES, imp::query, visit::qstrings, imp::qformat);
    go!(SPLACES, imp::schema, visit::sstrings, imp::sformat);
    V::Ok(places)
}

// ---------------------------------------------------------------- C19

/// overwrites the text, so that anything that still points to it is seen
fn scribble(s: String) {
    let mut b = s.into_bytes();
    b.iter_mut().for_each(|x| *x = b'#');
    std::hint::black_box(&b);
}

/// a text type of a user's own
#[derive(Debug)]
pub struct Own;
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Word(std::rc::Rc<str>);
impl<'a> q::Text<'a> for Own {
    type Value = Word;
}
impl From<&str> for Word {
    fn from(s: &str) -> Word {
        Word(s.into())
    }
}
impl AsRef<str> for Word {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl std::borrow::Borrow<str> for Word {
    fn borrow(&self) -> &str {
        &self.0
    }
}

macro_rules! all_types {
    ($src:expr, $m:ident, $parse_own:expr, $parse_ref:expr, $parse_string:expr, $parse_cow:expr, $dump:path, $vals:path, $fmt:ident) => {{
        let src: &str = $src;
        let o = Opt::default();
        // the content, and what it prints
        macro_rules! full {
            ($x:expr) => {
                format!("{}\n{:?}\n{:?}", $dump($x, o), imp::show($x), imp::$fmt($x, &imp::style(3, true)))
            };
        }
        let base = imp::map(imp::wrap(|| $parse_ref(src)), |x| full!(&x));
        if let Out::Crash(e) = &base {
            return bad(format!("panicked: {}", e));
        }
        let mut outs: Vec<(&str, Out<String>)> = vec![];
        outs.push(("String", imp::map(imp::wrap(|| $parse_string(src)), |x| full!(&x))));
        outs.push(("Cow", imp::map(imp::wrap(|| $parse_cow(src)), |x| full!(&x))));
        outs.push(("a text type of the user's", imp::map(imp::wrap(|| $parse_own(src)), |x| full!(&x))));
        outs.push(("String made 'static", {
            let copy = src.to_string();
            let r = imp::wrap(|| $parse_string(&copy));
            let r = match r {
                Out::Ok(x) => match guard(|| x.into_static()) {
                    Ok(x) => Out::Ok(x),
                    Err(m) => Out::Crash(m),
                },
                Out::Err(e) => Out::Err(e),
                Out::Crash(e) => Out::Crash(e),
            };
            scribble(copy);
            imp::map(r, |x: $m::Document<'static, String>| full!(&x))
        }));
        outs.push(("String, cloned", {
            match imp::wrap(|| $parse_string(src)) {
                Out::Ok(x) => {
                    let y = x.clone();
                    if x != y {
                        return bad("a clone of the document does not equal it");
                    }
                    drop(x);
                    Out::Ok(full!(&y))
                }
                Out::Err(e) => Out::Err(e),
                Out::Crash(e) => Out::Crash(e),
            }
        }));
        for (what, out) in &outs {
            if *out != base {
                return bad(format!("&str gives {:?}\n{} gives {:?}", base, what, out));
            }
        }
        if !matches!(base, Out::Ok(_)) {
            return V::Ok(1);
        }
        let mut statics: Vec<(String, Result<q::Value<'static, String>, String>)> = vec![];
        let copy = src.to_string();
        if let Out::Ok(y) = imp::wrap(|| $parse_ref(&copy)) {
            $vals(&y, &mut |x| statics.push((dump::value(x, o), guard(|| x.into_static()))));
        }
        if let Out::Ok(y) = imp::wrap(|| $parse_cow(&copy)) {
            $vals(&y, &mut |x| statics.push((dump::value(x, o), guard(|| x.into_static()))));
        }
        if let Out::Ok(y) = imp::wrap(|| $parse_string(&copy)) {
            $vals(&y, &mut |x| statics.push((dump::value(x, o), guard(|| x.into_static()))));
        }
        scribble(copy);
        for (want, s) in &statics {
            match s {
                Ok(s) if dump::value(s, o) == *want => {}
                Ok(s) => return bad(format!("into_static of the value {} is {}", want, dump::value(s, o))),
                Err(e) => return bad(format!("into_static of the value {} panicked: {}", want, e)),
            }
        }
        V::Ok(2 + (statics.len() as u32).min(100))
    }};
}

pub fn text_types(_: &str, a: &[&str]) -> V {
    fn qs(s: &str) -> Result<q::Document<'_, String>, q::ParseError> {
        q::parse_query::<String>(s)
    }
    fn qc(s: &str) -> Result<q::Document<'_, Cow<'_, str>>, q::ParseError> {
        q::parse_query::<Cow<str>>(s)
    }
    fn qr(s: &str) -> Result<q::Document<'_, &str>, q::ParseError> {
        q::parse_query::<&str>(s)
    }
    fn ss(s: &str) -> Result<s::Document<'_, String>, s::ParseError> {
        s::parse_schema::<String>(s)
    }
    fn sc(s: &str) -> Result<s::Document<'_, Cow<'_, str>>, s::ParseError> {
        s::parse_schema::<Cow<str>>(s)
    }
    fn sr(s: &str) -> Result<s::Document<'_, &str>, s::ParseError> {
        s::parse_schema::<&str>(s)
    }
    fn cs(s: &str) -> Result<(q::Definition<'_, String>, &str), q::ParseError> {
        q::consume_definition::<String>(s)
    }
    fn cc(s: &str) -> Result<(q::Definition<'_, Cow<'_, str>>, &str), q::ParseError> {
        q::consume_definition::<Cow<str>>(s)
    }
    fn qo(s: &str) -> Result<q::Document<'_, Own>, q::ParseError> {
        q::parse_query::<Own>(s)
    }
    fn so(s: &str) -> Result<s::Document<'_, Own>, s::ParseError> {
        s::parse_schema::<Own>(s)
    }
    if a[0] == "q" {
        let o = Opt::default();
        let x = imp::map(imp::consume(a[1]), |x| (dump::qdef(&x.0, o), x.1.to_string()));
        let y = imp::map(imp::wrap(|| cs(a[1])), |x| (dump::qdef(&x.0, o), x.1.to_string()));
        let z = imp::map(imp::wrap(|| cc(a[1])), |x| (dump::qdef(&x.0, o), x.1.to_string()));
        if x != y || x != z {
            return bad(format!("consume_definition: &str gives {:?}, String {:?}, Cow {:?}", x, y, z));
        }
        all_types!(a[1], q, qo, qr, qs, qc, dump::qdoc, visit::qvalues, qformat)
    } else {
        all_types!(a[1], s, so, sr, ss, sc, dump::sdoc, visit::svalues, sformat)
    }
}

// ---------------------------------------------------------------- C20

fn same_token(a: &Tok, sa: &str, b: &Tok, sb: &str) -> bool {
    let (x, y) = (a.text(sa), b.text(sb));
    if a.k != b.k {
        return false;
    }
    if a.k != K::Block || x == y {
        return x == y;
    }
    let trim = |s: &str| -> Vec<String> { s.split('\n').map(|l| l.trim_start_matches([' ', '\t']).to_string()).collect() };
    trim(x) == trim(y) && decode_block(x) == decode_block(y)
}

/// checks the layout of one formatted document; Err is a complaint
fn layout(m: &str, out: &str, indent: u32, multi: bool) -> Result<bool, String> {
    let mut r = R::new(out, PLAIN);
    let ok = if m == "q" { r.query() } else { r.schema() };
    if ok.is_err() {
        // formatted text that is no document: not this property's business
        return Ok(false);
    }
    let toks = &r.lx.toks;
    let mut depth = 0usize;
    let mut prev_end = 0;
    use refparse::{R, *};
    for (i, t) in toks.iter().enumerate() {
        let mk = r.marks[i];
        let gap = &out[prev_end..t.s];
        prev_end = t.e;
        let at = |what: &str| format!("{} at token {} {:?} ({}:{}) [indent {}, multiline {}]\n{}", what, i, t.text(out), t.pos.0, t.pos.1, indent, multi, out);
        if gap.chars().any(|c| !matches!(c, ' ' | '\n' | ',')) {
            return Err(at("more than spaces, line ends and commas between tokens"));
        }
        let nl = gap.matches('\n').count();
        let first = i == 0 || nl > 0;
        let closes = mk & BCLOSE != 0 || (multi && mk & ACLOSE != 0);
        if closes {
            depth -= 1;
        }
        let must = mk & (DEF | ITEM | BCLOSE) != 0 || (multi && m == "q" && mk & (AITEM | ACLOSE) != 0);
        let may = must || mk & ADESC != 0 || (multi && m == "s" && mk & (AITEM | ACLOSE) != 0);
        if must && !first {
            return Err(at("not on its own line"));
        }
        if first && !may {
            return Err(at("an unexpected line starts"));
        }
        if first {
            let lead = match gap.rfind('\n') {
                Some(k) => &gap[k + 1..],
                None => gap,
            };
            if lead != " ".repeat(depth * indent as usize) {
                return Err(at(&format!("indented by {:?} instead of {} x {} spaces", lead, depth, indent)));
            }
            let want = if i == 0 {
                0
            } else if mk & DEF != 0 {
                2
            } else {
                1
            };
            if nl != want {
                return Err(at(&format!("{} line ends before it instead of {}", nl, want)));
            }
        }
        if mk & BOPEN != 0 || (multi && mk & AOPEN != 0) {
            depth += 1;
        }
        if t.k == K::Block {
            // its lines are one level deeper, the closing quotes are not
            let lines: Vec<&str> = t.text(out).split('\n').collect();
            let inner = " ".repeat((depth + 1) * indent as usize);
            let body = &lines[1..lines.len().max(2) - 1];
            if lines.len() < 3 || lines[0] != "\"\"\"" || lines[lines.len() - 1] != format!("{}\"\"\"", " ".repeat(depth * indent as usize)) {
                return Err(at("the quotes of a block string are misplaced"));
            }
            if body.iter().any(|l| !l.is_empty() && !l.starts_with(&inner)) {
                return Err(at(&format!("a line of a block string is not indented by {} spaces", inner.len())));
            }
            if body.iter().filter(|l| !l.is_empty()).all(|l| l[inner.len()..].starts_with([' ', '\t'])) {
                return Err(at(&format!("all lines of a block string are indented by more than {} spaces", inner.len())));
            }
        }
    }
    Ok(true)
}

/// a style is what was set last, however often and in whatever order
fn style_history(a: &[&str]) -> V {
    let (m, src) = (a[0], a[1]);
    let (mut indent, mut multi) = (2, false);
    let mut st = graphql_parser::Style::default();
    let r = guard(|| {
        for c in a[2].chars() {
            match c {
                'm' | 'o' => {
                    multi = c == 'm';
                    st.multiline_arguments(multi);
                }
                'c' => st = st.clone(),
                'f' => {
                    if let Out::Ok(d) = imp::query("{a(b:[1]){c}}") {
                        d.format(&st);
                    }
                }
                _ => {
                    indent = c.to_digit(10).unwrap();
                    st.indent(indent);
                }
            }
        }
    });
    if let Err(e) = r {
        return bad(format!("setting the style panicked: {}", e));
    }
    // the other order than imp::style
    let mut fresh = graphql_parser::Style::default();
    fresh.multiline_arguments(multi).indent(indent);
    if fresh != imp::style(indent, multi) || st != fresh || (st == imp::style(indent + 1, multi)) || st == imp::style(indent, !multi) {
        return bad(format!("a style set by {:?} is {:?}", a[2], st));
    }
    macro_rules! go {
        ($parse:path, $fmt:path) => {{
            let doc = match $parse(src) {
                Out::Ok(x) => x,
                Out::Err(_) => return V::Skip,
                Out::Crash(m) => return bad(format!("parser panicked: {}", m)),
            };
            match ($fmt(&doc, &st), $fmt(&doc, &imp::style(indent, multi))) {
                (Ok(x), Ok(y)) if x == y => V::Ok(0),
                (x, y) => return bad(format!("with the style set by {:?}: {:?}, with indent {} and multi-line arguments {}: {:?}", a[2], x, indent, multi, y)),
            }
        }};
    }
    if m == "q" {
        go!(imp::query, imp::qformat)
    } else {
        go!(imp::schema, imp::sformat)
    }
}

pub fn style(kind: &str, a: &[&str]) -> V {
    if kind == "set" {
        return style_history(a);
    }
    let (m, src) = (a[0], a[1]);
    let styles: &[(u32, bool)] = match kind {
        "few" => &STYLES_FEW,
        "wide" => &STYLES_WIDE,
        _ => &STYLES,
    };
    macro_rules! go {
        ($parse:path, $fmt:path) => {{
            let doc = match $parse(src) {
                Out::Ok(x) => x,
                Out::Err(_) => return V::Skip,
                Out::Crash(m) => return bad(format!("parser panicked: {}", m)),
            };
            let def = match $fmt(&doc, &graphql_parser::Style::default()) {
                Ok(x) => x,
                Err(e) => return bad(format!("formatting panicked: {}", e)),
            };
            match imp::show(&doc) {
                Ok(x) if x == def => {}
                Ok(x) => return bad(format!("displayed\n{}\nformatted with the default style\n{}", x, def)),
                Err(e) => return bad(format!("displaying panicked: {}", e)),
            }
            let mut outs = vec![];
            for (i, ml) in styles {
                match $fmt(&doc, &imp::style(*i, *ml)) {
                    Ok(x) => outs.push((*i, *ml, x)),
                    Err(e) => return bad(format!("formatting panicked: {}", e)),
                }
            }
            (def, outs)
        }};
    }
    let (def, outs) = if m == "q" { go!(imp::query, imp::qformat) } else { go!(imp::schema, imp::sformat) };
    if kind != "wide" && outs[0].2 != def {
        return bad(format!("the default style is not two spaces and arguments on one line\n{}\n{}", def, outs[0].2));
    }
    let l0 = lex(&def, PLAIN);
    let gaps = |l: &Lexed, s: &str| -> Vec<usize> {
        let mut e = 0;
        let mut v: Vec<usize> = l
            .toks
            .iter()
            .map(|t| {
                let n = s[e..t.s].matches(',').count();
                e = t.e;
                n
            })
            .collect();
        v.push(s[e..].matches(',').count());
        v
    };
    let mut judged = 0;
    for (i, ml, out) in &outs {
        let l = lex(out, PLAIN);
        let what = format!("(indent {}, multiline {})\n{}\n(default)\n{}", i, ml, out, def);
        if l.toks.len() != l0.toks.len() || l.toks.iter().zip(&l0.toks).any(|(x, y)| !same_token(x, out, y, &def)) {
            return bad(format!("tokens differ between styles {}", what));
        }
        if gaps(&l, out) != gaps(&l0, &def) {
            return bad(format!("commas differ between styles {}", what));
        }
        match layout(m, out, *i, *ml) {
            Ok(b) => judged += b as u32,
            Err(e) => return bad(e),
        }
    }
    V::Ok(judged)
}

// ---------------------------------------------------------------- C22

pub fn locations(kind: &str, a: &[&str]) -> V {
    use s::DirectiveLocation as L;
    match kind {
        "name" => {
            let got = guard(|| a[0].parse::<L>().ok());
            let got = match got {
                Ok(x) => x,
                Err(e) => return bad(format!("panicked: {}", e)),
            };
            let want = LOCS.contains(&a[0]);
            match got {
                None if !want => V::Ok(0),
                None => bad(format!("{:?} is refused", a[0])),
                Some(l) if !want => bad(format!("{:?} is accepted as {:?}", a[0], l)),
                Some(l) => {
                    if dump::locname(&l) != a[0] {
                        return bad(format!("{:?} is read as {:?}", a[0], l));
                    }
                    if l.as_str() != a[0] {
                        return bad(format!("{:?} is named {:?}", l, l.as_str()));
                    }
                    let exec = [
                        "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION",
                        "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION",
                    ]
                    .contains(&a[0]);
                    if l.is_query() != exec || l.is_schema() == exec {
                        return bad(format!("{:?}: is_query {}, is_schema {}", l, l.is_query(), l.is_schema()));
                    }
                    V::Ok(1)
                }
            }
        }
        _ => {
            // the text after `directive @a on`
            let src = format!("directive @a on {}", a[0]);
            let want = refparse::schema(&src, PARSER).map(|x| d::strip(&x));
            let doc = imp::schema(&src);
            match (want, doc) {
                (_, Out::Crash(e)) => bad(format!("panicked: {}", e)),
                (Err(_), Out::Err(_)) => V::Ok(2),
                (Ok(_), Out::Err(e)) => bad(format!("{:?} is rejected: {}", src, e)),
                (Err(_), Out::Ok(_)) => bad(format!("{:?} is accepted", src)),
                (Ok(w), Out::Ok(doc)) => {
                    let got = d::strip(&dump::sdoc(&doc, Opt::default()));
                    if got != w {
                        return bad(format!("{:?}: expected {}, got {}", src, w, got));
                    }
                    for (i, ml) in &STYLES[..2] {
                        match imp::sformat(&doc, &imp::style(*i, *ml)) {
                            Err(e) => return bad(format!("printing panicked: {}", e)),
                            Ok(t) => {
                                let names = |s: &str| -> Vec<String> {
                                    lex(s, PLAIN).toks.iter().filter(|t| LOCS.contains(&t.text(s))).map(|t| t.text(s).to_string()).collect()
                                };
                                if names(&t) != names(&src) {
                                    return bad(format!("{:?} prints as {:?}", src, t));
                                }
                            }
                        }
                    }
                    V::Ok(3)
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C23

pub fn concat(_: &str, a: &[&str]) -> V {
    let (m, x, y) = (a[0], a[1], a[2]);
    let xy = format!("{}\n{}", x, y);
    let (dx, dy) = match (idump(m, x), idump(m, y)) {
        (Out::Ok(a), Out::Ok(b)) => (a, b),
        _ => return V::Skip,
    };
    // `directive @a on` without locations takes the next name for a location
    if m == "s" {
        let l = lex(x, PLAIN);
        if l.toks.last().map(|t| t.text(x)) == Some("on") {
            if let Out::Ok(doc) = imp::schema(x) {
                if matches!(doc.definitions.last(), Some(s::Definition::DirectiveDefinition(_))) {
                    return V::Skip;
                }
            }
        }
    }
    match idump(m, &xy) {
        Out::Ok(d) => {
            let want = d::strip(&dx) + &d::strip(&dy);
            let got = d::strip(&d);
            if got != want {
                return bad(format!("expected\n{}got\n{}", want, got));
            }
        }
        Out::Err(e) => return bad(format!("the concatenation is rejected: {}", e)),
        Out::Crash(e) => return bad(format!("panicked: {}", e)),
    }
    macro_rules! go {
        ($parse:path, $fmt:path) => {
            if let (Out::Ok(a), Out::Ok(b), Out::Ok(ab)) = ($parse(x), $parse(y), $parse(&xy)) {
                for (i, ml) in [(2, false), (2, true), (0, false), (4, true)] {
                    let st = imp::style(i, ml);
                    match ($fmt(&a, &st), $fmt(&b, &st), $fmt(&ab, &st)) {
                        (Ok(fa), Ok(fb), Ok(fab)) => {
                            let want = format!("{}\n{}", fa, fb);
                            if fab != want {
                                return bad(format!("(indent {}, multiline {}) expected print\n{}\ngot\n{}", i, ml, want, fab));
                            }
                        }
                        e => return bad(format!("printing panicked: {:?}", e)),
                    }
                }
            }
        };
    }
    if m == "q" {
        go!(imp::query, imp::qformat)
    } else {
        go!(imp::schema, imp::sformat)
    }
    V::Ok(1 + dx.lines().count() as u32 + dy.lines().count() as u32)
}

// ---------------------------------------------------------------- C24

fn toks_of(s: &str) -> Vec<(K, String)> {
    lex(s, PLAIN)
        .toks
        .iter()
        .map(|t| (t.k, if t.k == K::Block { decode_block(t.text(s)) } else { t.text(s).to_string() }))
        .collect()
}

struct Nodes {
    doc: Vec<(K, String)>,
    o: Opt,
    n: u32,
    err: Option<String>,
}

impl Nodes {
    /// `text`: the displayed node; `pre`/`post`: where such a node may stand;
    /// `want`: its dump; `read`: finds the node in the parsed document
    fn node(&mut self, what: &str, text: Result<String, String>, want: String, pre: &str, post: &str, read: &dyn Fn(&str) -> Out<Option<String>>) {
        if self.err.is_some() {
            return;
        }
        self.n += 1;
        let text = match text {
            Ok(t) => t,
            Err(e) => {
                self.err = Some(format!("displaying a {} panicked: {}", what, e));
                return;
            }
        };
        let src = format!("{}{}{}", pre, text, post);
        let want = d::strip(&want);
        match read(&src) {
            Out::Ok(Some(x)) if d::strip(&x) == want => {}
            Out::Ok(x) => {
                self.err = Some(format!("{} {} displays as {:?}, which in {:?} reads as {:?}", what, want, text, src, x.map(|x| d::strip(&x))));
                return;
            }
            Out::Err(e) => {
                self.err = Some(format!("{} {} displays as {:?}, rejected in {:?}: {}", what, want, text, src, e));
                return;
            }
            Out::Crash(e) => {
                self.err = Some(format!("parser panicked on {:?}: {}", src, e));
                return;
            }
        }
        let t = toks_of(&text);
        if !self.doc.windows(t.len().max(1)).any(|w| w == t) {
            self.err = Some(format!("{} displays as {:?}, which is not made of the tokens of its part of the printed document", what, text));
        }
    }
}

fn first_q(src: &str, f: &dyn for<'a> Fn(&q::Document<'a, &'a str>) -> Option<String>) -> Out<Option<String>> {
    imp::map(imp::query(src), |d| f(&d))
}
fn first_s(src: &str, f: &dyn for<'a> Fn(&s::Document<'a, &'a str>) -> Option<String>) -> Out<Option<String>> {
    imp::map(imp::schema(src), |d| f(&d))
}
fn one_sel<'b, 'a>(d: &'b q::Document<'a, &'a str>) -> Option<&'b q::Selection<'a, &'a str>> {
    match &d.definitions[..] {
        [q::Definition::Operation(q::OperationDefinition::SelectionSet(s))] if s.items.len() == 1 => s.items.first(),
        _ => None,
    }
}
fn one_field<'b, 'a>(d: &'b q::Document<'a, &'a str>) -> Option<&'b q::Field<'a, &'a str>> {
    match one_sel(d)? {
        q::Selection::Field(f) => Some(f),
        _ => None,
    }
}
fn one_var<'b, 'a>(d: &'b q::Document<'a, &'a str>) -> Option<&'b q::VariableDefinition<'a, &'a str>> {
    match &d.definitions[..] {
        [q::Definition::Operation(q::OperationDefinition::Query(x))] if x.variable_definitions.len() == 1 => x.variable_definitions.first(),
        _ => None,
    }
}

fn qnode<'a>(n: &QN<'_, 'a, &'a str>, c: &mut Nodes) {
    use q::OperationDefinition as O;
    let o = c.o;
    let one_def = |src: &str| {
        first_q(src, &|d| match &d.definitions[..] {
            [x] => Some(dump::qdef(x, o)),
            _ => None,
        })
    };
    match n {
        QN::Def(x) => {
            let want = dump::qdef(x, o);
            c.node("definition", imp::show(*x), want.clone(), "", "", &one_def);
            match x {
                q::Definition::Operation(x) => {
                    c.node("operation", imp::show(x), want.clone(), "", "", &one_def);
                    match x {
                        O::SelectionSet(x) => c.node("selection set", imp::show(x), want, "", "", &one_def),
                        O::Query(x) => c.node("query", imp::show(x), want, "", "", &one_def),
                        O::Mutation(x) => c.node("mutation", imp::show(x), want, "", "", &one_def),
                        O::Subscription(x) => c.node("subscription", imp::show(x), want, "", "", &one_def),
                    }
                }
                q::Definition::Fragment(x) => c.node("fragment definition", imp::show(x), want, "", "", &one_def),
            }
        }
        QN::Sel(x) => c.node("selection set", imp::show(*x), dump::selset(x, o), "{a", "}", &|src| {
            first_q(src, &|d| one_field(d).map(|f| dump::selset(&f.selection_set, o)))
        }),
        QN::Field(x) => c.node("field", imp::show(*x), dump::qfield(x, o), "{", "}", &|src| first_q(src, &|d| one_sel(d).map(|s| dump::selection(s, o)))),
        QN::Spread(x) => c.node("fragment spread", imp::show(*x), dump::spread(x, o), "{", "}", &|src| first_q(src, &|d| one_sel(d).map(|s| dump::selection(s, o)))),
        QN::Inline(x) => c.node("inline fragment", imp::show(*x), dump::inline(x, o), "{", "}", &|src| first_q(src, &|d| one_sel(d).map(|s| dump::selection(s, o)))),
        QN::Cond(x) => c.node("type condition", imp::show(*x), dump::cond(x).to_string(), "{...", "{a}}", &|src| {
            first_q(src, &|d| match one_sel(d)? {
                q::Selection::InlineFragment(f) => f.type_condition.as_ref().map(|c| dump::cond(c).to_string()),
                _ => None,
            })
        }),
        QN::Var(x) => c.node("variable definition", imp::show(*x), dump::vardef(x, o), "query(", "){a}", &|src| first_q(src, &|d| one_var(d).map(|v| dump::vardef(v, o)))),
        QN::Type(x) => c.node("type", imp::show(*x), dump::ty(x), "query($v:", "){a}", &|src| first_q(src, &|d| one_var(d).map(|v| dump::ty(&v.var_type)))),
        QN::Value(x) => c.node("value", imp::show(*x), dump::value(x, o), "{a(b:", ")}", &|src| {
            first_q(src, &|d| {
                let f = one_field(d)?;
                match &f.arguments[..] {
                    [(_, v)] => Some(dump::value(v, o)),
                    _ => None,
                }
            })
        }),
        QN::Dir(x) => c.node("directive", imp::show(*x), dump::directive(x, o), "{a ", "}", &|src| {
            first_q(src, &|d| {
                let f = one_field(d)?;
                match &f.directives[..] {
                    [v] => Some(dump::directive(v, o)),
                    _ => None,
                }
            })
        }),
    }
}

fn snode<'a>(n: &SN<'_, 'a, &'a str>, c: &mut Nodes) {
    use s::Definition as D;
    use s::TypeDefinition as TD;
    use s::TypeExtension as TE;
    let o = c.o;
    let one_def = |src: &str| {
        first_s(src, &|d| match &d.definitions[..] {
            [x] => Some(dump::sdef(x, o)),
            _ => None,
        })
    };
    match n {
        SN::Def(x) => {
            let want = dump::sdef(x, o);
            c.node("definition", imp::show(*x), want.clone(), "", "", &one_def);
            match x {
                D::SchemaDefinition(x) => c.node("schema definition", imp::show(x), want, "", "", &one_def),
                D::DirectiveDefinition(x) => c.node("directive definition", imp::show(x), want, "", "", &one_def),
                D::TypeDefinition(x) => {
                    c.node("type definition", imp::show(x), want.clone(), "", "", &one_def);
                    match x {
                        TD::Scalar(x) => c.node("scalar type", imp::show(x), want, "", "", &one_def),
                        TD::Object(x) => c.node("object type", imp::show(x), want, "", "", &one_def),
                        TD::Interface(x) => c.node("interface type", imp::show(x), want, "", "", &one_def),
                        TD::Union(x) => c.node("union type", imp::show(x), want, "", "", &one_def),
                        TD::Enum(x) => c.node("enum type", imp::show(x), want, "", "", &one_def),
                        TD::InputObject(x) => c.node("input type", imp::show(x), want, "", "", &one_def),
                    }
                }
                D::TypeExtension(x) => {
                    c.node("type extension", imp::show(x), want.clone(), "", "", &one_def);
                    match x {
                        TE::Scalar(x) => c.node("scalar extension", imp::show(x), want, "", "", &one_def),
                        TE::Object(x) => c.node("object extension", imp::show(x), want, "", "", &one_def),
                        TE::Interface(x) => c.node("interface extension", imp::show(x), want, "", "", &one_def),
                        TE::Union(x) => c.node("union extension", imp::show(x), want, "", "", &one_def),
                        TE::Enum(x) => c.node("enum extension", imp::show(x), want, "", "", &one_def),
                        TE::InputObject(x) => c.node("input extension", imp::show(x), want, "", "", &one_def),
                    }
                }
            }
        }
        SN::Field(x) => c.node("field definition", imp::show(*x), dump::sfield(x, o), "type A{", "}", &|src| {
            first_s(src, &|d| match &d.definitions[..] {
                [D::TypeDefinition(TD::Object(t))] => match &t.fields[..] {
                    [f] => Some(dump::sfield(f, o)),
                    _ => None,
                },
                _ => None,
            })
        }),
        SN::Input(x) => {
            c.node("input value", imp::show(*x), dump::input(x, o), "input A{", "}", &|src| {
                first_s(src, &|d| match &d.definitions[..] {
                    [D::TypeDefinition(TD::InputObject(t))] => match &t.fields[..] {
                        [f] => Some(dump::input(f, o)),
                        _ => None,
                    },
                    _ => None,
                })
            });
            c.node("argument definition", imp::show(*x), dump::input(x, o), "type A{a(", "):T}", &|src| {
                first_s(src, &|d| match &d.definitions[..] {
                    [D::TypeDefinition(TD::Object(t))] => match &t.fields[..] {
                        [f] => match &f.arguments[..] {
                            [x] => Some(dump::input(x, o)),
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                })
            })
        }
        SN::Q(x) => qnode(x, c),
    }
}

pub fn nodes(_: &str, a: &[&str]) -> V {
    let (m, src) = (a[0], a[1]);
    macro_rules! go {
        ($parse:path, $nodes:path, $f:path) => {{
            let doc = match $parse(src) {
                Out::Ok(d) => d,
                Out::Err(_) => return V::Skip,
                Out::Crash(e) => return bad(format!("parser panicked: {}", e)),
            };
            let shown = match imp::show(&doc) {
                Ok(x) => x,
                Err(e) => return bad(format!("displaying the document panicked: {}", e)),
            };
            let go = |o: Opt| {
                let mut c = Nodes { doc: toks_of(&shown), o, n: 0, err: None };
                $nodes(&doc, &mut |n| $f(&n, &mut c));
                c
            };
            let c = go(Opt::default());
            // K2: integral floats come back as integers, nothing else may differ
            if c.err.is_some() && go(Opt { k2: true }).err.is_none() {
                return V::Known("K2");
            }
            c
        }};
    }
    let c = if m == "q" {
        go!(imp::query, visit::qnodes, qnode)
    } else {
        go!(imp::schema, visit::snodes, snode)
    };
    match c.err {
        Some(e) => bad(e),
        None => V::Ok(c.n.min(200)),
    }
}
