use crate::engine::V;
use crate::evals::rparse;
use crate::evals3::repeated;
use crate::imp::{self, Out};
use crate::lexref::*;
use crate::mem;
use crate::refparse::EK;
use std::borrow::Cow;

fn bad(m: impl Into<String>) -> V {
    V::Bad(m.into())
}

// ---------------------------------------------------------------- C29

/// one use of the library; `w` chooses which. Err is a panic.
fn usage(w: &str, src: &str) -> Result<bool, String> {
    macro_rules! all {
        ($ref:expr, $string:expr, $cow:expr, $fmt:ident) => {{
            match w.as_bytes()[1] {
                b'r' => match imp::wrap(|| $ref(src)) {
                    Out::Ok(d) => {
                        for (i, ml) in [(2, false), (3, true)] {
                            imp::$fmt(&d, &imp::style(i, ml))?;
                        }
                        imp::show(&d)?;
                        if d.clone() != d {
                            return Ok(false);
                        }
                        Ok(true)
                    }
                    Out::Err(_) => Ok(false),
                    Out::Crash(e) => Err(e),
                },
                b's' => match imp::wrap(|| $string(src)) {
                    Out::Ok(d) => {
                        let d = d.into_static();
                        imp::show(&d)?;
                        Ok(true)
                    }
                    Out::Err(_) => Ok(false),
                    Out::Crash(e) => Err(e),
                },
                _ => match imp::wrap(|| $cow(src)) {
                    Out::Ok(d) => {
                        imp::show(&d)?;
                        Ok(true)
                    }
                    Out::Err(_) => Ok(false),
                    Out::Crash(e) => Err(e),
                },
            }
        }};
    }
    use graphql_parser::{parse_query, parse_schema};
    match w.as_bytes()[0] {
        b'q' => all!(parse_query::<&str>, parse_query::<String>, parse_query::<Cow<str>>, qformat),
        b's' => all!(parse_schema::<&str>, parse_schema::<String>, parse_schema::<Cow<str>>, sformat),
        b'm' => match imp::minify(src) {
            Out::Ok(_) => Ok(true),
            Out::Err(_) => Ok(false),
            Out::Crash(e) => Err(e),
        },
        _ => {
            let mut rest = src;
            loop {
                match imp::consume(rest) {
                    Out::Ok((_, r)) if r.len() < rest.len() => rest = r,
                    Out::Crash(e) => return Err(e),
                    _ => return Ok(true),
                }
            }
        }
    }
}

const SMALL: usize = 4 << 10;
const FACTOR: usize = 16;

pub fn memory(kind: &str, a: &[&str]) -> V {
    if kind == "grow" {
        // a text is made `FACTOR` times longer
        let n = (SMALL / a[2].len().max(1)).max(1);
        let small = repeated(a, n);
        let big = repeated(a, n * FACTOR);
        let mut worst = 0u64;
        for w in if a[0] == "q" { &["qr", "qs"][..] } else if a[0] == "s" { &["sr", "ss"] } else { std::slice::from_ref(&a[0]) } {
            let mut err = None;
            let x = mem::measure(|| usage(w, &small).map_err(|e| err = Some(e)));
            let y = mem::measure(|| usage(w, &big).map_err(|e| err = Some(e)));
            if let Some(e) = err {
                return bad(format!("panicked: {}", e));
            }
            // capacities double: a factor of two says nothing; neither do small texts
            let scale = big.len() as f64 / small.len() as f64;
            for (what, x, y) in [("at a time", x.peak as f64, y.peak as f64), ("in all", x.total as f64, y.total as f64)] {
                let unit = x.max(small.len() as f64 * 16.0 + 4096.0);
                let g = y / (unit * scale);
                worst = worst.max((g * 10.0) as u64);
                if g > 4.0 {
                    return bad(format!("{}: {} bytes of text take {} bytes of memory {}, {} bytes of text {}", w, small.len(), x, what, big.len(), y));
                }
            }
            // and a bound for any text
            if y.peak as u64 > big.len() as u64 * 8192 + (64 << 10) {
                return bad(format!("{}: {} bytes of text take {} bytes of memory", w, big.len(), y.peak));
            }
        }
        return V::Ok(worst as u32);
    }
    if kind == "fresh" {
        return fresh(a[0], a[1]);
    }
    let (m, src) = (a[0], a[1]);
    let uses: &[&str] = if m == "q" { &["qr", "qs", "qc", "m", "c"] } else { &["sr", "ss", "sc"] };
    let mut cls = 0;
    for w in uses {
        let mut last = 0;
        // the first may fill a cache; what keeps growing is lost
        for i in 0..4 {
            let mut r = Ok(false);
            let u = mem::measure(|| r = std::hint::black_box(usage(w, src)));
            match r {
                Err(e) => return bad(format!("panicked: {}", e)),
                Ok(ok) => cls |= ok as u32,
            }
            last = u.kept;
            if u.kept <= 0 {
                break;
            }
            if i == 3 {
                return bad(format!("{} of {:?} loses {} bytes each time", w, src, last));
            }
        }
        let _ = last;
    }
    V::Ok(cls)
}

/// the text with its names, numbers and strings made unlike those of any other
fn variant(toks: &[(bool, String)], k: usize) -> String {
    let mut s = String::new();
    for (generic, t) in toks {
        match t.as_bytes()[0] {
            b'"' if t.starts_with("\"\"\"") => s.push_str(&format!("\"\"\"{}\n  v{}\"\"\"", k, k * 7919)),
            b'"' => s.push_str(&format!("\"v{}\\n\\u00{:02X}\"", k * 7919, 0x20 + k % 0x50)),
            _ if *generic => s.push_str(&format!("{}x{}", t, k * 7919)),
            b'0'..=b'9' | b'-' if t.contains('.') => s.push_str(&format!("{}.5", k)),
            b'0'..=b'9' | b'-' => s.push_str(&format!("{}", k + 1)),
            _ => s.push_str(t),
        }
        s.push(' ');
    }
    s
}

fn fresh(m: &str, src: &str) -> V {
    let lx = lex(src, PARSER);
    let toks: Vec<(bool, String)> = lx
        .toks
        .iter()
        .map(|t| {
            let t = t.text(src).to_string();
            (t.len() > 1 && t.starts_with('n') && t[1..].bytes().all(|b| b.is_ascii_digit()), t)
        })
        .collect();
    const N: usize = 96;
    let texts: Vec<String> = (0..N).map(|k| variant(&toks, k)).collect();
    let mut cls = 0;
    let uses: &[&str] = if m == "q" { &["qr", "qs", "qc", "m", "c"] } else { &["sr", "ss", "sc"] };
    for w in uses {
        let mut growing = 0;
        for t in &texts {
            let mut r = Ok(false);
            let u = mem::measure(|| r = std::hint::black_box(usage(w, t)));
            match r {
                Err(e) => return bad(format!("panicked: {}", e)),
                Ok(ok) => cls |= ok as u32,
            }
            growing = if u.kept > 0 { growing + 1 } else { 0 };
        }
        // a bounded cache fills up or lets go of something now and then
        if growing >= N / 2 {
            return bad(format!("{} of texts such as {:?}: something more is kept of each", w, texts[N - 1]));
        }
    }
    V::Ok(2 + cls)
}

// ---------------------------------------------------------------- C30

const AFTER: [&str; 50] = [
    "\0", "\u{1}", "\u{7f}", "\r", "\\", "'", "/*", "`", "\"\\u12\"", "\"\"\"\\\"\"\"", "1e", "00", ".", "-", "{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{{", "[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[", "query { a }", "# comment\n}",
    "", "}", ")", "]", "{", "(", "[", ":", "a", "1", "1.5", "\"", "\"s\"", "\"\"\"", ";", "#", "\n\n", "\u{feff}é", "{a}", "type A", "on", "}}}}}}}}}}", "99999999999999999999", "\"\\q\"", "!", "... @ $ = | &",
    "\n}\n\n\n\n\n\n\n\n\n\n{a}\n", "a\r\nb\r\n\r\n\r\n\r\nc", "#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n",
    concat!("é ", "abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi abcdefghi "), "\r\r\r\r\r\r", "\"\"\"\n\n\n\n\n x \n\n\n\n\"\"\" {a}",
];

pub fn prefix(_: &str, a: &[&str]) -> V {
    let (m, src) = (a[0], a[1]);
    let want = match rparse(if m == "c" { "q" } else { m }, src, PARSER) {
        Ok(_) => return V::Skip,
        Err(e) => e,
    };
    let lx = lex(src, PARSER);
    // the text ends with the token that is wrong
    if lx.toks.is_empty() || want.tok + 1 != lx.toks.len() || !matches!(want.kind, EK::Syntax) || !matches!(lx.end, End::Eof { .. }) {
        return V::Skip;
    }
    let msg = |s: &str| match m {
        "q" => imp::map(imp::query(s), |_| ()),
        "s" => imp::map(imp::schema(s), |_| ()),
        _ => imp::map(imp::consume(s), |_| ()),
    };
    let first = match msg(src) {
        Out::Err(e) => e,
        // another property's business; or consumed before the error
        Out::Ok(_) => return V::Skip,
        Out::Crash(e) => return bad(format!("panicked: {}", e)),
    };
    match imp::errpos(&first) {
        Some(p) if p == want.pos || p == want.alt => {}
        _ => return V::Skip,
    }
    for t in AFTER.iter().chain(&a[2..]) {
        let s = format!("{} {}", src, t);
        match msg(&s) {
            Out::Err(e) if e == first => {}
            Out::Err(e) => return bad(format!("{:?} gives the error\n{}followed by {:?}\n{}", src, first, t, e)),
            Out::Ok(_) => return bad(format!("{:?} is accepted, without its end it is not: {}", s, first)),
            Out::Crash(e) => return bad(format!("panicked: {}", e)),
        }
    }
    V::Ok(if m == "c" { 2 } else { 1 })
}
