//! What each check explores.

use crate::engine::{Ctx, Eval};
use crate::fam::{self, word_cases, Lang};
use crate::fam2;
use crate::gen::*;
use crate::gram::*;
use crate::refparse::{self, EK, LOCS};
use crate::{build, evals, evals2, evals3, evals4, hist};

pub struct Check {
    pub id: &'static str,
    pub eval: Eval,
    pub gen: fn(&mut Ctx),
    /// may a violation be made smaller by deleting characters of its last argument?
    pub shrink: bool,
    pub about: &'static str,
}

pub const CHECKS: [Check; 30] = [
    Check { id: "C01", eval: evals::c01, gen: c01, shrink: true, about: "outcome classes: bit 0 minified, 1 consumed, 2 parsed as query, 3 parsed as schema" },
    Check { id: "C02", eval: evals::roundtrip, gen: c02, shrink: true, about: "outcome classes: size of the AST dump" },
    Check { id: "C03", eval: evals::roundtrip, gen: c03, shrink: true, about: "outcome classes: size of the AST dump" },
    Check { id: "C04", eval: evals::accept, gen: c04, shrink: true, about: "outcome classes: 1 accepted, 2 syntax error, 3 bad literal, 4 semantic error, 5 too deep" },
    Check { id: "C05", eval: evals::ast, gen: c05, shrink: true, about: "outcome classes: size of the AST dump" },
    Check { id: "C06", eval: evals::accept, gen: c06, shrink: true, about: "outcome classes: 1 accepted, 2 syntax error, 3 bad literal, 4 semantic error, 5 too deep" },
    Check { id: "C07", eval: evals::ast, gen: c07, shrink: true, about: "outcome classes: size of the AST dump" },
    Check { id: "C08", eval: evals::tokens, gen: c08, shrink: true, about: "outcome classes: bit 0 lexed, bit 1 accepted in some context" },
    Check { id: "C09", eval: evals::literal, gen: c09, shrink: true, about: "outcome classes: 1 valid literal, 2 rejected, 3 depends on the place" },
    Check { id: "C10", eval: evals::literal, gen: c10, shrink: true, about: "outcome classes: 1 valid literal, 2 rejected, 3 depends on the place" },
    Check { id: "C11", eval: evals2::printing, gen: c11, shrink: true, about: "outcome classes: number of places printed" },
    Check { id: "C12", eval: evals::number, gen: c12, shrink: false, about: "outcome classes: 1 not an argument, 2 rejected, 4 number printed and read back, 5 integer range" },
    Check { id: "C13", eval: evals::positions, gen: c13, shrink: true, about: "outcome classes: number of positions compared" },
    Check { id: "C14", eval: evals::errors, gen: c14, shrink: true, about: "outcome classes: 1 syntax error, 2 bad literal, 3 semantic error, 4 too deep" },
    Check { id: "C15", eval: evals::depth, gen: c15, shrink: true, about: "outcome classes: 0 accepted, 1 too deep, 2 other error" },
    Check { id: "C16", eval: evals::minify, gen: c16, shrink: true, about: "outcome classes: 0 refused, 1 minified, 2 minified and a query document" },
    Check { id: "C17", eval: evals::consume, gen: c17, shrink: true, about: "outcome classes: 0 refused, 1 first definition only, n+1: n definitions, all consumed" },
    Check { id: "C18", eval: evals::ignored, gen: c18, shrink: false, about: "outcome classes: 0 both rejected, 1 both accepted" },
    Check { id: "C19", eval: evals2::text_types, gen: c19, shrink: true, about: "outcome classes: 1 rejected, n+2: accepted, n value conversions" },
    Check { id: "C20", eval: evals2::style, gen: c20, shrink: true, about: "outcome classes: number of styles whose layout was monitored" },
    Check { id: "C21", eval: hist::eval, gen: c21, shrink: false, about: "outcome classes: length of the history" },
    Check { id: "C22", eval: evals2::locations, gen: c22, shrink: false, about: "outcome classes: 0 no location, 1 location, 2 list rejected, 3 list accepted" },
    Check { id: "C23", eval: evals2::concat, gen: c23, shrink: false, about: "outcome classes: number of lines of the dumps" },
    Check { id: "C24", eval: evals2::nodes, gen: c24, shrink: true, about: "outcome classes: number of nodes displayed" },
    Check { id: "C25", eval: evals3::messages, gen: c25, shrink: true, about: "outcome classes: 1 wrong token, 2 end of input, 3 malformed token, 4 bad value or semantic error, 5 not a location" },
    Check { id: "C26", eval: evals3::cost, gen: c26, shrink: false, about: "outcome classes: ten times (growth of the time / growth of the text)" },
    Check { id: "C27", eval: evals3::equality, gen: c27, shrink: false, about: "outcome classes: 0 different, 1 the same" },
    Check { id: "C28", eval: evals3::content, gen: c28, shrink: false, about: "outcome classes: 0 built by hand, n: fifths of the number of positions changed" },
    Check { id: "C29", eval: evals4::memory, gen: c29, shrink: false, about: "outcome classes: 0 rejected, 1 accepted; for growing texts ten times (growth of the memory / growth of the text)" },
    Check { id: "C30", eval: evals4::prefix, gen: c30, shrink: false, about: "outcome classes: 1 rejected as a document, 2 rejected as a definition" },
];

pub fn find(id: &str) -> Option<&'static Check> {
    CHECKS.iter().find(|c| c.id == id)
}

// ---------------------------------------------------------------- helpers

/// documents printed with unusual indents
fn wide_styles(ctx: &mut Ctx, l: &Lang) {
    let m = l.m;
    let go = |c: &mut Ctx, t: &[String]| c.run("wide", &[m, &spaced(t)]);
    fam::transitions(ctx, l, ctx.pick(1, 3), Names::Uniq, "17 more indents of 5..1000", &mut { go });
    fam::rich(ctx, l, &[1, 2], ctx.pick(4, 24), &[0, 2, 7], Names::Uniq, "17 more indents of 5..1000", &mut { go });
    ctx.group("strings and values in every place, 17 more indents of 5..1000");
    for v in BLOCK_WORDS.iter().chain(STR_WORDS.iter()).chain(&["1", "[1 {a:[2]}]", "{a:{b:[3 4] c:\"\"\"x\n y\"\"\"}}"]) {
        for p in if m == "q" { &evals2::QPLACES[..] } else { &evals2::SPLACES[..] } {
            ctx.go("wide", &[m, &if v.starts_with('"') { p.replace("\"@\"", v) } else { value_place(p, v) }]);
        }
    }
}

/// all sentences of a language that the checks of valid documents share
fn sentences(ctx: &mut Ctx, l: &Lang, kind: &'static str, size: (usize, usize), nest: (usize, usize)) {
    let n = ctx.pick(size.0, size.1);
    let d = ctx.pick(nest.0, nest.1);
    let m = l.m;
    let go = |c: &mut Ctx, t: &[String]| c.run(kind, &[m, &spaced(t)]);
    fam::transitions(ctx, l, d, Names::Uniq, "distinct names", &mut { go });
    fam::transitions(ctx, l, d.min(2), Names::Same, "equal names", &mut { go });
    fam::pumps(ctx, l, 2, &[2, 3], "", &mut { go });
    fam::pumps(ctx, l, 1, &[60], "", &mut { go });
    fam::loop_pairs(ctx, l, 1, "", &mut { go });
    full_sentences(ctx, l, &mut { go });
    fam::all(ctx, l, n, Names::Uniq, "distinct names", &mut { go });
}

/// sentences with many parts, and many of each part
fn full_sentences(ctx: &mut Ctx, l: &Lang, f: &mut fam::Sink) {
    let (small, max) = ctx.pick((34, 300), (70, 1100));
    let rots = if l.m == "q" { ctx.pick(8, 24) } else { 30 };
    fam::rich(ctx, l, &[1], rots, &fam::counts(small, max), Names::Uniq, "distinct names", f);
    fam::rich(ctx, l, &[1, 2, 3, 5], 24, &[0, 2, 3, 4, 5, 6, 7, 9, 12], Names::Uniq, "distinct names", f);
    fam::rich(ctx, l, &[1, 2], 12, &[2, 3, 5], Names::Mod(2), "two names", f);
    fam::two_names(ctx, l, 1, &[2, 3, 4], 8, "", f);
    fam::pumps(ctx, l, 1, &fam::counts(ctx.pick(20, 70), ctx.pick(300, 1100)), "", f);
    let d = ctx.pick(1, 2);
    fam::idioms(ctx, l, 2, f);
    fam::pairs(ctx, l, d, "", f);
    relations(ctx, l, f);
}

/// sentences whose parts have something to do with each other
fn relations(ctx: &mut Ctx, l: &Lang, f: &mut fam::Sink) {
    let dear = ctx.dear;
    let deep = if l.m == "q" { ctx.pick(3, 4) } else { ctx.pick(2, 3) };
    fam2::related(ctx, l, 1, ctx.pick(if dear { 0 } else { 2 }, 12), f);
    fam2::siblings(ctx, l, deep, f);
    fam2::alike(ctx, l, deep, ctx.pick(&[3, 9, 33], &[3, 5, 9, 17, 33, 65, 129, 257]), f);
    fam2::placed(ctx, l, deep, ctx.pick(&[3], &[3, 5, 9]), f);
    fam2::sequences(ctx, l, 1, ctx.pick(if dear { 700 } else { 2500 }, 60000), f);
    fam2::mixes(ctx, l.m, f);
    fam2::kinds(ctx, l.m, ctx.pick(if dear { 3 } else { 4 }, 5), |c, v| f(c, &fam::split_tokens(&v.join(" "))));
}

/// texts of more than 65536 lines, columns, items or bytes in a token
fn huge(ctx: &mut Ctx, l: &Lang, f: &mut dyn FnMut(&mut Ctx, &str)) {
    ctx.group(&format!("{} texts with 255..257 and 65535..65537 pieces of ignored text in a gap", l.m));
    let doc: &[&str] = if l.m == "q" {
        &["query Q($v:T=1){a(b:\"s\" c:\"\"\"t\"\"\") ", "@d(e:[1]){b}}", " fragment F on T{c}"]
    } else {
        &["\"d\" type A implements B @d(c:1){a(b:T=[2] ", "\"\"\"e\"\"\" c:U):V}", " extend enum E{F @g}"]
    };
    let ks = [255, 256, 257, 65535, 65536, 65537];
    for gap in 0..=doc.len() {
        for p in [" ", "\t", "\n", "\r", "\r\n", ",", "\u{feff}", "#\n", "#c\r", "# é\r\n", "\n\t "] {
            for k in ks {
                if ctx.mine() {
                    let piece = p.repeat(k);
                    let mut v = doc.to_vec();
                    v.insert(gap, &piece);
                    f(ctx, &v.concat());
                }
            }
        }
    }
    ctx.group(&format!("{} texts with tokens and comments of 255..257 and 65535..65537 characters", l.m));
    for k in ks {
        for c in ["x", "é", "😀"] {
            let long = c.repeat(k);
            let n = "x".repeat(k);
            let texts = if l.m == "q" {
                vec![
                    format!("query {} ($v:T){{a}}", n), format!("{{a {}:{} @{} (b:{}){{c}} d}}", n, n, n, n), format!("{{a(b:\"{}\") c @d(e:\"\\\"{}\\n\"){{f}}}}", long, long),
                    format!("{{a(b:\"\"\"{}\n{}\"\"\") c}}", long, long), format!("{{a(b:\"\"\"{}\"\"\") c}}", format!("{}\n", c).repeat(k)), format!("{{a #{}\n b #{}\r c}}", long, long), format!("{{a(b:0.{}5 c:1){{d}}}}", "0".repeat(k)),
                    format!("query($v:{}=1 $w:[T]){{a}} fragment F on {}{{b}}", n, n),
                ]
            } else {
                vec![
                    format!("type {} implements {} {{a:T}} scalar B", n, n), format!("\"{}\" type A {{ \"{}\" a:T b:U}}", long, long), format!("\"\"\"{}\n{}\"\"\" type A {{a:T b:U}}", long, long),
                    format!("\"\"\"{}\"\"\" type A {{a:T b:U}}", format!("{}\n", c).repeat(k)), format!("scalar A #{}\n scalar B #{}\r scalar C", long, long), format!("enum A{{ {} @{} C}} union D = {} | E", n, n, n),
                    format!("type A{{a(b:T=\"{}\" {}:T):U c:V}}", long, n),
                ]
            };
            for t in texts {
                if ctx.mine() {
                    f(ctx, &t);
                }
            }
        }
    }
    let g = &mut |c: &mut Ctx, t: &[String]| f(c, &joined(t, "\n", false));
    fam::distinct_pumps(ctx, l, 1, ctx.pick(&[66000], &[32769, 66000]), "in lines", g);
}

/// documents of more than a million tokens
fn vast(ctx: &mut Ctx, l: &Lang, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let n = ctx.pick(1_100_000, 17_000_000);
    ctx.group(&format!("{} documents with {} tokens in one list", l.m, n));
    let v: &[(&str, &str, &str)] = if l.m == "q" {
        &[("{", "a ", "}"), ("{a(b:[", "1 ", "])}"), ("{a(b:[", "[]", "])}"), ("query{a", "@b ", "{c}}"), ("", "{a}", ""), ("{", "a ", "")]
    } else {
        &[("enum A{", "B ", "}"), ("union A=B", "|C", ""), ("", "scalar A ", ""), ("input A{", "a:T ", "}"), ("type A @a(b:[", "1 ", "])"), ("enum A{", "B ", "")]
    };
    for (pre, unit, post) in v {
        if ctx.mine() {
            let k = crate::lexref::lex(unit, crate::lexref::PARSER).toks.len();
            f(ctx, &format!("{}{}{}", pre, unit.repeat(n / k), post));
        }
    }
}

/// names replaced by keywords and the like, values by the literals of the menus
fn substitutions(ctx: &mut Ctx, l: &Lang, kind: &'static str, nest: usize) {
    let m = l.m;
    let few = ctx.dear && !ctx.thorough();
    fam::transitions(ctx, l, if few { 1 } else { nest }, Names::Uniq, "each name replaced by each word of the name menu", &mut |c, t| {
        fam::substitute(t, &mut |_, w| fam::name_menu(w), &mut |v| c.run(kind, &[m, &spaced(v)]));
    });
    if few && nest > 1 {
        fam::transitions(ctx, l, nest, Names::Uniq, "each name replaced by each of 24 words", &mut |c, t| {
            fam::substitute(t, &mut |_, w| if fam::is_name(w) { fam2::PLACED.to_vec() } else { vec![] }, &mut |v| c.run(kind, &[m, &spaced(v)]));
        });
    }
    fam::transitions(ctx, l, nest, Names::Uniq, "each number or string replaced by each literal of its menu", &mut |c, t| {
        fam::substitute(t, &mut |_, w| fam::value_menu(w), &mut |v| c.run(kind, &[m, &spaced(v)]));
    });
}

/// deep documents below the limit
fn deep_values(mut f: impl FnMut(&str, String)) {
    for pat in ["L", "O", "LO", "OL", "LLO", "OOL"] {
        for d in [5usize, 20, 45] {
            let mut s = String::from("1");
            for k in 0..d {
                s = match pat.as_bytes()[k % pat.len()] {
                    b'L' => format!("[x {} \"y\"]", s),
                    _ => format!("{{k:{} l:[]}}", s),
                };
            }
            f("q", format!("{{a(b:{} c:2){{d}}}}", s));
            f("q", format!("query($v:T={}){{a @d(e:{})}}", s, s));
            f("s", format!("type A{{a(b:T={} c:U):V @d(e:{})}}", s, s));
            f("s", format!("input A{{b:T={} c:U}}", s));
        }
    }
    for d in [5usize, 20, 49] {
        f("q", format!("{}{{b}}{}", "{a".repeat(d), "}".repeat(d)));
        f("q", format!("{}{{b}}{}", "{...@d{x ...on T".repeat(d / 2), " z}y}".repeat(d / 2)));
        f("q", format!("query($v:{}T!{}){{a}}", "[".repeat(d), "]!".repeat(d)));
        f("s", format!("type A{{a(b:{}T{}):{}U{} c:V}}", "[".repeat(d - 2), "]!".repeat(d - 2), "[".repeat(d - 2), "]".repeat(d - 2)));
    }
}
fn deep_docs(ctx: &mut Ctx, kind: &'static str, m: &str) {
    ctx.group("documents nested 5, 20 and 45..49 deep, by kind of nesting");
    deep_values(|l, s| {
        if l == m {
            ctx.go(kind, &[m, &s]);
        }
    });
}

/// grammar and reference parser must agree on every explored word
fn agree(l: &Lang, t: &[String], w: &str) {
    let mut c = l.g.initial();
    let mut ok = true;
    for x in t {
        let s = l.g.syms.iter().position(|y| y.0 == x);
        let s = match s {
            Some(s) => s as S,
            None => return,
        };
        match l.g.step(&c, s) {
            Some(d) => c = d,
            None => {
                ok = false;
                break;
            }
        }
    }
    let ok = ok && l.g.accepts_end(&c) && !t.is_empty();
    let r = if l.m == "q" { refparse::query(w, crate::lexref::PARSER) } else { refparse::schema(w, crate::lexref::PARSER) };
    let rok = match r {
        Ok(_) => true,
        // the reference parser stops there, the grammar does not know of it
        Err(e) if e.kind == EK::Semantic => return,
        Err(_) => false,
    };
    assert!(ok == rok, "the two models disagree on {:?}: grammar {}, reference parser {}", w, ok, rok);
}

// ---------------------------------------------------------------- C01

const HOSTILE: [&str; 20] = [
    "{", "}", "(", ")", "[", ":", "$", "@", "\"", "\\", "u", "\n", "\r", "#", " ", "é", "\u{feff}", "1", "-", ".",
];
const IN_STR: [&str; 10] = ["\"", "\\", "u", "0", "d", "n", "é", "😀", "\n", "\r"];
const IN_BLOCK: [&str; 9] = ["\"", "\\", "\n", "\r", " ", "\t", "\u{3000}", "é", "a"];

fn c01(ctx: &mut Ctx) {
    let n = ctx.pick(4, 5);
    word_cases(ctx, "raw text", &HOSTILE, n, |c, s| c.run("few", &[s]));
    let n = ctx.pick(3, 4);
    word_cases(ctx, "text after `{a(b:`", &HOSTILE, n, |c, s| {
        c.run("few", &[&format!("{{a(b:{}", s)]);
        c.run("few", &[&format!("{{a(b:{})}}", s)]);
    });
    word_cases(ctx, "text after `type A `", &HOSTILE, n, |c, s| c.run("few", &[&format!("type A {}", s)]));
    let n = ctx.pick(5, 6);
    word_cases(ctx, "inside a quoted string", &IN_STR, n, |c, s| {
        c.run("few", &[&format!("{{a(b:\"{}\")}}", s)]);
        c.run("few", &[&format!("\"{}\" scalar A", s)]);
    });
    let n = ctx.pick(5, 6);
    word_cases(ctx, "inside a block string", &IN_BLOCK, n, |c, s| {
        c.run("few", &[&format!("{{a(b:\"\"\"{}\"\"\")}}", s)]);
        c.run("few", &[&format!("\"\"\"{}\"\"\" scalar A", s)]);
    });
    let n = ctx.pick(3, 4);
    word_cases(
        ctx,
        "escapes in a quoted string",
        &["\\uD83D", "\\uDE00", "\\ud83d", "\\uD8", "\\u", "\\u00e9", "\\uFFFF", "\\u{1F600}", "\\", "\\n", "\\x41", "\\\"", "é", "😀", "a", "abcdef", "ééééééé"],
        n,
        |c, s| {
            c.run("few", &[&format!("{{a(b:\"{}\")}}", s)]);
            c.run("few", &[&format!("type A{{b(c:T=\"{}\"):T}}", s)]);
        },
    );
    ctx.group("every Unicode scalar value raw, in a string, in a block string, in a comment, in a name");
    for cp in 0..0x110000u32 {
        if let Some(ch) = char::from_u32(cp) {
            if ctx.mine() {
                if cp >= 0x3100 && !ctx.thorough() {
                    ctx.run("two", &[&format!("{}", ch)]);
                    ctx.run("two", &[&format!("{{a(b:\"{}\" c:\"\"\"\n {}\n{} x\"\"\" #{}\n)}}", ch, ch, ch, ch)]);
                    continue;
                }
                ctx.run("few", &[&format!("{}", ch)]);
                ctx.run("few", &[&format!("{{a{}(b:\"{}\" c:\"\"\"\n {}\n{} x\"\"\" #{}\n)}}", ch, ch, ch, ch, ch)]);
                ctx.run("few", &[&format!("{{a(b:\"{}\\{}\" c:\"\"\"\n {}\n{} x\"\"\" #{}\n)}}", ch, ch, ch, ch, ch)]);
                ctx.run("few", &[&format!("{{a(b:\"{}\" c:\"\"\"\n {}\n{} x\"\"\" #{}\n)}}", ch, ch, ch, ch)]);
            }
        }
    }
    for l in [Lang::q(), Lang::s()] {
        let d = ctx.pick(2, 3);
        fam::transitions(ctx, &l, d, Names::Uniq, "all 12 styles", &mut |c, t| c.run("all", &[&spaced(t)]));
        fam::negatives(ctx, &l, d, Names::Uniq, "", &mut |c, t| c.run("few", &[&spaced(t)]));
        fam::transitions(ctx, &l, 1, Names::Uniq, "cut at every byte and with a byte deleted", &mut |c, t| {
            let s = spaced(t);
            for i in 0..s.len() {
                c.run("few", &[&s[..i]]);
                let mut x = s.clone();
                x.remove(i);
                c.run("few", &[&x]);
            }
        });
        fam::pumps(ctx, &l, 1, &[2, 49, 60, 300], "all 12 styles", &mut |c, t| c.run("all", &[&spaced(t)]));
        fam::transitions(ctx, &l, 2, Names::Uniq, "each number or string replaced by each literal of its menu", &mut |c, t| {
            fam::substitute(t, &mut |_, w| fam::value_menu(w), &mut |v| c.run("few", &[&spaced(v)]));
        });
    }
    long_wrong(ctx, &mut |c, _, s| c.run("two", &[s]));
    special_wrong(ctx, &mut |c, _, s| c.run("two", &[s]));
    ctx.group("nested documents, all 12 styles");
    deep_values(|_, s| ctx.go("all", &[&s]));
    ctx.group("a part repeated: prefix x part x count x suffix");
    let counts: &[usize] = if ctx.thorough() { &[49, 50, 51, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 300000] } else { &[49, 50, 51, 128, 256, 1000, 65536, 200000] };
    for (pre, suf) in [("", ""), ("{a(b:", ")}"), ("{", "}"), ("query(", "){a}"), ("type A{", "}"), ("type A{a(b:T=", "):T}"), ("{a(b:\"", "\")}"), ("{a(b:\"\"\"", "\"\"\")}"), ("#", "\n{a}"), ("type A @d", ""), ("query($v:", "){a}"), ("union A=", "B"), ("{a{b(c:[", "])}}")] {
        for part in [
            "{", "}", "(", ")", "[", "]", "{a", "[1", "{a:", "[{a:", "(a:", "{a(b:[", "\"", "\\", "\\\"\"\"", "\"\"\"", "\n", "\r", "\r\n", " ", ",", "\t", "#", "#\n",
            "a", "a ", "1", "-", "0", ".", "...", "... ", "1e", "\u{feff}", "é", "😀", "😀 ", "\\u0041", "\\n", "\\b", "$a:T ", "a:T ", "b|", "|b", "@d ", "@d(e:1)", "T!", "!", "&", "&A", "...on T{",
            "{...", "type A ", "{a}", "query ", "a:", "a\n", " a\n", "  \n", "[]", "{}", "[[]]", "\"x\" ", "\"\"\"x\"\"\" ", "\"d\" a:T\n", "= ", "1.", "9",
        ] {
            for k in counts {
                ctx.go("rep", &[pre, part, &k.to_string(), suf]);
            }
        }
    }
    ctx.group("brackets opened and closed 200000 deep");
    for (o, c) in [("{a", "}"), ("{", "}"), ("[", "]"), ("(", ")"), ("{a(b:[", "])}"), ("{a(b:{c:", "})}")] {
        for k in [50, 51, 1000, 200000] {
            let close = c.repeat(k);
            ctx.go("rep", &["", o, &k.to_string(), &close]);
            ctx.go("rep", &["{a(b:", o, &k.to_string(), &format!("{})}}", close)]);
            ctx.go("rep", &["type A{a(b:T=", o, &k.to_string(), &format!("{}):T}}", close)]);
            ctx.go("rep", &["query($a:", o, &k.to_string(), &format!("T{}){{a}}", close)]);
        }
    }
}

// ---------------------------------------------------------------- C02, C03

fn round(ctx: &mut Ctx, l: &Lang, size: (usize, usize), nest: (usize, usize)) {
    let m = l.m;
    let d = ctx.pick(nest.0, nest.1);
    fam::transitions(ctx, l, d, Names::Uniq, "12 styles", &mut |c, t| c.run("all", &[m, &spaced(t)]));
    wide_styles(ctx, l);
    sentences(ctx, l, "few", size, nest);
    huge(ctx, l, &mut |c, s| c.run("two", &[m, s]));
    substitutions(ctx, l, "few", 2);
    deep_docs(ctx, "all", m);
    ctx.group("integral and other floats in every place");
    for f in ["1.0", "-0.0", "0.0", "1.5E+3", "12e1", "1e18", "1e19", "-1e19", "1e400", "1.0e-1", "9223372036854775807.0"] {
        for p in if m == "q" { &evals2::QPLACES[..] } else { &evals2::SPLACES[7..] } {
            let p = value_place(p, f);
            ctx.go("two", &[m, &p]);
        }
    }
    // values in pairs: what one prints must not run into the other
    ctx.group("all pairs of values from the menus, as list items, arguments, object fields, default values");
    let v = value_words();
    for a in &v {
        for b in &v {
            if m == "q" {
                ctx.go("two", &[m, &format!("query($v:T={} $w:[T]={}){{a(b:[{} {}] c:{{k:{} l:{}}}) @d(x:{} y:{})}}", konst(a), konst(b), a, b, b, a, a, b)]);
            } else {
                ctx.go("two", &[m, &format!("type A{{a(b:T={} c:T={}):T @d(x:{} y:[{} {}])}} enum E @d(k:{{k:{} l:{}}}){{B}}", konst(a), konst(b), a, b, a, b, a)]);
            }
        }
    }
}
fn konst(v: &str) -> &str {
    if v.contains('$') {
        "null"
    } else {
        v
    }
}
/// one or more values of every kind
fn value_words() -> Vec<&'static str> {
    let mut v = vec![
        "$x", "true", "false", "null", "E", "query", "on", "[]", "{}", "[1]", "{a:1}", "[[]]", "[{}]", "{a:[]}", "{a:{}}", "[1 2]", "{a:1 b:2}", "{b:1 a:2}", "[\"x\"]", "[$x]", "{on:$on}",
        "[null [true] {a:\"\"}]",
    ];
    v.extend(&INT_WORDS[..6]);
    v.extend(&FLOAT_WORDS[..6]);
    v.extend(&STR_WORDS[..10]);
    v.extend(&BLOCK_WORDS[..10]);
    v
}

fn c02(ctx: &mut Ctx) {
    round(ctx, &Lang::q(), (11, 14), (3, 5));
}
fn c03(ctx: &mut Ctx) {
    round(ctx, &Lang::s(), (8, 10), (2, 3));
    schema_ops(ctx, "few");
}

/// schema definitions with all operation lists
fn schema_ops(ctx: &mut Ctx, kind: &'static str) {
    ctx.group("schema definitions: all lists of <= 4 operations from 5 keywords, 3 contexts");
    let ops = ["query:A", "mutation:B", "subscription:query", "foo:A", "Query:A"];
    for (pre, post) in [("", ""), ("scalar A\n", " type B"), ("\n  ", "\nextend type A")] {
        let c = fam::words(&ops, 4, |_| {});
        ctx.model(c, c - 1);
        let mut idx = vec![];
        lists(&ops, 4, &mut idx, &mut |w| {
            let s = format!("{}schema @d {{ {} }}{}", pre, w.join(" "), post);
            ctx.go(kind, &["s", &s]);
            let s = format!("{}schema{{\n{}\n}}{}", pre, w.join("\n"), post);
            ctx.go(kind, &["s", &s]);
        });
    }
}
/// all lists of at most n items
fn lists<'a>(items: &[&'a str], n: usize, acc: &mut Vec<&'a str>, f: &mut dyn FnMut(&[&'a str])) {
    f(acc);
    if n > 0 {
        for i in items {
            acc.push(i);
            lists(items, n - 1, acc, f);
            acc.pop();
        }
    }
}

// ---------------------------------------------------------------- C04, C06

fn acceptance(ctx: &mut Ctx, l: &Lang, size: (usize, usize), full: (usize, usize), nest: (usize, usize), strings: (usize, usize)) {
    let m = l.m;
    let d = ctx.pick(nest.0, nest.1);
    let go = |c: &mut Ctx, t: &[String]| {
        let s = spaced(t);
        agree(l, t, &s);
        c.run("", &[m, &s])
    };
    fam::transitions(ctx, l, d, Names::Same, "", &mut { go });
    fam::negatives(ctx, l, d, Names::Same, "", &mut { go });
    let go2 = |c: &mut Ctx, t: &[String]| {
        c.run("", &[m, &spaced(t)]);
        c.run("", &[m, &tight(t)]);
    };
    fam::transitions(ctx, l, d, Names::Uniq, "spaced and tight", &mut { go2 });
    fam::pumps(ctx, l, 2, &[2, 3, 55], "", &mut { go });
    fam::splices(ctx, l, ctx.pick(nest.0, nest.1), Names::Same, "", &mut { go });
    fam::loop_pairs(ctx, l, 1, "", &mut { go });
    full_sentences(ctx, l, &mut { go });
    fam::rich(ctx, l, &[1, 2], 12, &[], Names::Uniq, "every prefix, and every token deleted, doubled, swapped with the next or followed by a closing bracket", &mut |c, t| {
        let mut v: Vec<String> = t.to_vec();
        for i in 0..t.len() {
            c.run("", &[m, &spaced(&t[..i])]);
            let x = v.remove(i);
            c.run("", &[m, &spaced(&v)]);
            for b in [x.as_str(), "}", ")", "]", "!", "a"] {
                v.insert(i, b.to_string());
                v.insert(i, x.clone());
                c.run("", &[m, &spaced(&v)]);
                v.remove(i);
                v.remove(i);
            }
            v.insert(i, x);
            if i + 1 < t.len() {
                v.swap(i, i + 1);
                c.run("", &[m, &spaced(&v)]);
                v.swap(i, i + 1);
            }
        }
    });
    // all token strings
    let k = ctx.pick(strings.0, strings.1);
    let alpha: Vec<&str> = l.g.syms.iter().map(|s| s.0).collect();
    ctx.group(&format!("all strings of <= {} of the {} token symbols", k, alpha.len()));
    let spaced_alpha: Vec<String> = alpha.iter().map(|a| format!("{} ", a)).collect();
    let refs: Vec<&str> = spaced_alpha.iter().map(|s| s.as_str()).collect();
    let c = fam::words(&refs, k, |s| ctx.go("", &[m, s]));
    ctx.model(c, c - 1);
    // single token changes of all short sentences
    let n = ctx.pick(full.0, full.1);
    fam::all(ctx, l, n, Names::Same, "every token deleted, doubled, swapped with the next, replaced by and preceded by every symbol", &mut |c, t| {
        let mut v: Vec<String> = t.to_vec();
        for i in 0..t.len() {
            let x = v.remove(i);
            c.run("", &[m, &spaced(&v)]);
            v.insert(i, x.clone());
            v.insert(i, x);
            c.run("", &[m, &spaced(&v)]);
            v.remove(i);
            if i + 1 < t.len() {
                v.swap(i, i + 1);
                c.run("", &[m, &spaced(&v)]);
                v.swap(i, i + 1);
            }
        }
        for i in 0..=t.len() {
            for s in &alpha {
                v.insert(i, s.to_string());
                c.run("", &[m, &spaced(&v)]);
                if i < t.len() {
                    let x = v.remove(i + 1);
                    c.run("", &[m, &spaced(&v)]);
                    v.insert(i + 1, x);
                }
                v.remove(i);
            }
        }
    });
    fam::all_full(ctx, l, n, "", &mut |c, t| c.run("", &[m, &spaced(t)]));
    substitutions(ctx, l, "", ctx.pick(2, 3));
    let n = ctx.pick(size.0, size.1);
    fam::all(ctx, l, n, Names::Same, "", &mut { go });
    // what is left over after, or stands before, a document
    fam::transitions(ctx, l, 1, Names::Uniq, "with text before and after", &mut |c, t| {
        let s = tight(t);
        for x in ["", " ", "\n", "#c", ",", "\u{feff}", "a", "}", "{", ")", "!", "\"x\"", "1", ";", "\0", "\\", "'", "/", "^", "*", "%", ".", "..", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", "\u{200b}", "é", "\"", "\"\"\""] {
            c.run("", &[m, &format!("{}{}", s, x)]);
            c.run("", &[m, &format!("{}{}", x, s)]);
        }
    });
    deep_docs(ctx, "", m);
}

fn c04(ctx: &mut Ctx) {
    acceptance(ctx, &Lang::q(), (12, 15), (8, 10), (4, 6), (4, 5));
    vast(ctx, &Lang::q(), &mut |c, s| c.run("", &["q", s]));
}
fn c06(ctx: &mut Ctx) {
    acceptance(ctx, &Lang::s(), (9, 11), (6, 7), (3, 4), (3, 4));
    schema_ops(ctx, "");
    vast(ctx, &Lang::s(), &mut |c, s| c.run("", &["s", s]));
    location_lists(ctx, &mut |c, s| c.run("", &["s", &format!("directive @a on {}", s)]));
}

// ---------------------------------------------------------------- C05, C07

fn meaning(ctx: &mut Ctx, l: &Lang, size: (usize, usize), nest: (usize, usize)) {
    let m = l.m;
    sentences(ctx, l, "", size, nest);
    huge(ctx, l, &mut |c, s| c.run("", &[m, s]));
    let d = ctx.pick(2, 3);
    fam::pumps(ctx, l, d, &[2, 3, 17], "distinct names", &mut |c, t| c.run("", &[m, &tight(t)]));
    fam::loop_pairs(ctx, l, d, "distinct names", &mut |c, t| c.run("", &[m, &spaced(t)]));
    substitutions(ctx, l, "", d);
    let n = if m == "q" { ctx.pick(8, 9) } else { ctx.pick(6, 7) };
    fam::all_full(ctx, l, n, "", &mut |c, t| c.run("", &[m, &spaced(t)]));
    deep_docs(ctx, "", m);
    ctx.group("object values: all lists of <= 4 keys from 3, values nested");
    let ks = ["a:1", "b:[2]", "a:{b:3 a:4}", "B:null", "a:$v"];
    let mut acc = vec![];
    lists(&ks, 4, &mut acc, &mut |w| {
        let o = w.join(" ");
        if m == "q" {
            ctx.go("", &[m, &format!("{{f(x:{{{}}} x:[{{{}}}])}}", o, o)]);
            ctx.go("", &[m, &format!("query($d:T={{{}}}){{f}}", o.replace("$v", "5"))]);
        } else {
            ctx.go("", &[m, &format!("type A @d(x:{{{}}}){{f(x:T={{{}}}):T}}", o, o.replace("$v", "5"))]);
        }
    });
}
fn c05(ctx: &mut Ctx) {
    meaning(ctx, &Lang::q(), (13, 15), (4, 6));
}
fn c07(ctx: &mut Ctx) {
    meaning(ctx, &Lang::s(), (9, 11), (3, 4));
    schema_ops(ctx, "");
    location_lists(ctx, &mut |c, s| c.run("", &["s", &format!("\"d\" directive @a(b:C) repeatable on {} type A", s)]));
}

// ---------------------------------------------------------------- C08

fn every_token() -> Vec<&'static str> {
    let mut v: Vec<&str> = PUNCT.to_vec();
    v.extend(&["a", "_", "a1", "e", "E5", "true", "null", "on", "u0041"]);
    v.extend(INT_WORDS);
    v.extend(FLOAT_WORDS);
    v.extend(STR_WORDS);
    v.extend(BLOCK_WORDS);
    v
}
fn token_pairs(ctx: &mut Ctx, kind: &'static str) {
    let t = every_token();
    ctx.group(&format!("all pairs of {} tokens, side by side and with each of 12 separators", t.len()));
    ctx.model(t.len() as u64 + 1, (t.len() * t.len()) as u64);
    let seps = ["", " ", "\n", ",", "\r", "\t", "#\n", "\u{feff}", "#\"\n", "\r\n", ", #x\r", "\u{feff},"];
    for a in &t {
        for b in &t {
            if ctx.mine() {
                for s in seps {
                    ctx.run(kind, &[&format!("{}{}{}", a, s, b)]);
                }
            }
        }
    }
}
const CLASSES: [&str; 20] = ["a", "1", "0", ".", "-", "+", "e", "_", "\"", "\\", "#", "\n", "\r", " ", ",", "{", "$", "!", "\u{feff}", "é"];
const NUMCH: [&str; 9] = ["0", "1", "9", "+", "-", ".", "e", "E", "a"];
const STRCH: [&str; 9] = ["\"", "\\", "n", "u", "0", "\n", "#", "a", " "];
const PUNCH: [&str; 18] = ["!", "$", "&", "(", ")", ".", "...", ":", "=", "@", "[", "]", "{", "|", "}", "a", " ", "1"];

fn texts(ctx: &mut Ctx, kind: &'static str) {
    let n = ctx.pick(4, 5);
    word_cases(ctx, "one character per lexical class", &CLASSES, n, |c, s| c.run(kind, &[s]));
    let n = ctx.pick(5, 6);
    word_cases(ctx, "number characters", &NUMCH, n, |c, s| c.run(kind, &[s]));
    let n = ctx.pick(5, 6);
    word_cases(ctx, "string characters", &STRCH, n, |c, s| c.run(kind, &[s]));
    word_cases(ctx, "string characters after a quote", &STRCH, n, |c, s| c.run(kind, &[&format!("\"{}", s)]));
    word_cases(ctx, "string characters after three quotes", &STRCH, n, |c, s| c.run(kind, &[&format!("\"\"\"{}", s)]));
    let n = ctx.pick(3, 4);
    word_cases(ctx, "punctuation", &PUNCH, n, |c, s| c.run(kind, &[s]));
    ctx.group("all pairs of ASCII characters, alone and between two names");
    for a in 0..128u8 {
        for b in 0..128u8 {
            if ctx.mine() {
                let p = format!("{}{}", a as char, b as char);
                ctx.run(kind, &[&p]);
                ctx.run(kind, &[&format!("x{}y", p)]);
                ctx.run(kind, &[&format!("1{}2", p)]);
                ctx.run(kind, &[&format!("\"{}\"", p)]);
                ctx.run(kind, &[&format!("#{}\nz", p)]);
                ctx.run(kind, &[&format!("\"\"\"{}\"\"\"", p)]);
            }
        }
    }
    ctx.group("every Unicode scalar value, between two names, in a string, a block string and a comment");
    for cp in 0..0x110000u32 {
        if let Some(ch) = char::from_u32(cp) {
            if ctx.mine() {
                ctx.run(kind, &[&format!("a{}b", ch)]);
                ctx.run(kind, &[&format!("\"{}\"#{}\n\"\"\"{}\"\"\"", ch, ch, ch)]);
            }
        }
    }
    token_pairs(ctx, kind);
}
fn c08(ctx: &mut Ctx) {
    texts(ctx, "values");
    let n = ctx.pick(3, 4);
    word_cases(ctx, "one character per lexical class, in every context", &CLASSES, n, |c, s| c.run("", &[s]));
    for l in [Lang::q(), Lang::s()] {
        fam::transitions(ctx, &l, 2, Names::Uniq, "tight", &mut |c, t| c.run("", &[&tight(t)]));
    }
}

// ---------------------------------------------------------------- C09

fn c09(ctx: &mut Ctx) {
    let n = ctx.pick(4, 5);
    word_cases(
        ctx,
        "string characters",
        &["a", "\\", "\"", "n", "b", "u", "0", "d", "8", "F", "\n", "\r", "\t", "é", "😀", " ", "/", "+"],
        n,
        |c, s| c.run("str", &[s]),
    );
    ctx.group("every Unicode scalar value, raw and after a backslash");
    for cp in 0..0x110000u32 {
        if let Some(ch) = char::from_u32(cp) {
            if ctx.mine() {
                ctx.run("str", &[&format!("{}", ch)]);
                if cp < 0x3000 || ctx.thorough() {
                    ctx.run("str", &[&format!("x\\{}y", ch)]);
                    ctx.run("str", &[&format!("\\n{}\\u0041{}", ch, ch)]);
                }
            }
        }
    }
    ctx.group("every \\uXXXX, lower, upper and mixed case, with digits and letters before and after");
    for cp in 0..0x10000u32 {
        if ctx.mine() {
            let lo = format!("{:04x}", cp);
            let up = format!("{:04X}", cp);
            ctx.run("str", &[&format!("\\u{}", lo)]);
            ctx.run("str", &[&format!("1\\u{}f", up)]);
            let mix: String = lo.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            ctx.run("str", &[&format!("\\\\u{}\\u{}\\u{}é", mix, mix, lo)]);
            // followed by what would be an escape after a backslash
            for x in [&lo, &up] {
                ctx.run("str", &[&format!("\\u{}ny\\u{}u0041", x, x)]);
                ctx.run("str", &[&format!("\\u{}\\\"\\u{}\\n", x, x)]);
                ctx.run("str", &[&format!("\\u{}b\\u{}", x, x)]);
            }
        }
    }
    ctx.group("\\uXXXX with each digit replaced by every character below U+0180");
    for base in ["0041", "00e9", "2028", "fFfD", "d7ff", "e000"] {
        for i in 0..4 {
            for ch in 0..0x180u32 {
                let ch = char::from_u32(ch).unwrap();
                let mut s: Vec<char> = base.chars().collect();
                s[i] = ch;
                let s: String = s.into_iter().collect();
                ctx.go("str", &[&format!("\\u{}", s)]);
                ctx.go("str", &[&format!("\\u{}{}", &base[..i], ch)]);
            }
        }
    }
    let items: [&str; 22] = [
        "\\u005c", "\\u005C", "\\u0022", "n", "\\n", "\\r", "\\t", "\\b", "\\f", "\\/", "\\\\", "\\\"", "\\u0041", "\\u00E9", "\\uD83D", "\\uDE00", "\\u20ac", "é", "😀", "a", "\t", "u0041",
    ];
    let n = ctx.pick(3, 4);
    word_cases(ctx, "escapes in sequence", &items, n, |c, s| c.run("str", &[s]));
    let pads: [usize; 24] = [0, 1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 4096, 65536];
    ctx.group("an item inside long strings, 24 lengths before x 24 after");
    for a in items.iter().chain(&["\\q", "\\uD800", "\\u00g0", "\"", "\n", "\\"]) {
        for (x, y) in [("a", "a"), ("é", "é"), ("a", "é")] {
            for i in pads {
                for j in pads {
                    ctx.go("str", &[&format!("{}{}{}", x.repeat(i), a, y.repeat(j))]);
                }
            }
        }
    }
    ctx.group("long strings: an item repeated, then another");
    for a in items {
        for b in items {
            for k in [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1023, 1024, 4096] {
                ctx.go("str", &[&format!("{}{}", a.repeat(k), b)]);
            }
        }
    }
}

// ---------------------------------------------------------------- C10

const BLOCK_LINES: [&str; 22] = [
    "", " ", "  ", "\t", " \t", "a", " a", "  a", "   a", "\ta", " \ta", "a ", "  a b  ", "\u{a0}a", " \u{3000}a", "\u{b}", "\u{feff}", "  \\\"\"\"", "\\n", " é", "  \"\"x", "# c",
];
fn c10(ctx: &mut Ctx) {
    let n = ctx.pick(6, 7);
    word_cases(ctx, "block characters", &["a", " ", "\t", "\n", "\r", "\\", "\"", "\u{a0}"], n, |c, s| c.run("block", &[s]));
    let n = ctx.pick(5, 6);
    word_cases(ctx, "indentation and line ends", &["a", " ", "  ", "\n", "\r\n", "\r", "\t", "é", "\\\"\"\"", "\"\""], n, |c, s| c.run("block", &[s]));
    let k = ctx.pick(3, 4);
    ctx.group(&format!("all lists of <= {} lines from a menu of {}, LF / CRLF / CR", k, BLOCK_LINES.len()));
    let mut acc = vec![];
    lists(&BLOCK_LINES, k, &mut acc, &mut |w| {
        if ctx.mine() {
            for e in ["\n", "\r\n", "\r"] {
                ctx.run("block", &[&w.join(e)]);
            }
            if w.len() <= 3 {
                ctx.run("block", &[&format!("{}\n", w.join("\n"))]);
                ctx.run("block", &[&format!("\n{}\n  ", w.join("\n"))]);
            }
        }
    });
    ctx.group("all lists of <= 5 lines from 8, LF");
    let few = ["", "  ", "a", "  a", "    a", "\ta", " \u{a0}a", "\t\t"];
    let mut acc = vec![];
    let k = ctx.pick(5, 6);
    lists(&few, k, &mut acc, &mut |w| {
        ctx.go("block", &[&w.join("\n")]);
    });
    ctx.group("every Unicode scalar value as content, as indentation and alone on a line");
    for cp in 0..0x110000u32 {
        if let Some(ch) = char::from_u32(cp) {
            if ctx.mine() {
                ctx.run("block", &[&format!("\n  {}\n {}x\n   y{}\n{}", ch, ch, ch, ch)]);
                if cp < 0x3100 || ctx.thorough() {
                    ctx.run("block", &[&format!("{}", ch)]);
                    ctx.run("block", &[&format!("\\{}", ch)]);
                    ctx.run("block", &[&format!("x\n{}\n y\n  {}z", ch, ch)]);
                }
            }
        }
    }
    ctx.group("a piece inside long lines of block strings, 17 lengths before x 17 after");
    let pads: [usize; 17] = [0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 128, 256, 257, 4096, 65536];
    for a in ["\\\"\"\"", "\"\"", "\\", "\\\\", "\n", "\n ", "\r\n\t", "\r", "\\\"\"\"\n  \\\"\"\"", "é", "\u{a0}", "\\\"\"\"\"", "\"\"\\\"\"\""] {
        for (x, y) in [("a", "a"), (" ", "a"), ("a", " "), ("é", "é"), (" ", " ")] {
            for i in pads {
                for j in pads {
                    ctx.go("block", &[&format!("{}{}{}", x.repeat(i), a, y.repeat(j))]);
                    ctx.go("block", &[&format!("\n  {}{}{}\n   z", x.repeat(i), a, y.repeat(j))]);
                }
            }
        }
    }
    ctx.group("long block strings: a line repeated, then another");
    for a in BLOCK_LINES {
        for b in BLOCK_LINES {
            for k in [2, 3, 17, 64, 255, 256, 1000] {
                ctx.go("block", &[&format!("{}{}", format!("{}\n", a).repeat(k), b)]);
                ctx.go("block", &[&format!("x\n{}{}", format!("{}\r\n", a).repeat(k), b)]);
            }
        }
    }
    ctx.group("indentation of 0..40, 63..65, 127..129, 255..257 and 65535..65537 in three lines");
    for i in (0..40).chain(63..66).chain(127..130).chain(255..258).chain(65535..65538) {
        for (x, y) in [(0, 0), (1, 0), (0, 1), (2, 5), (5, 2)] {
            let p = |n: usize| " ".repeat(i + n);
            ctx.go("block", &[&format!("x\n{}a\n{}b\n{}c", p(x), p(y), p(1))]);
            ctx.go("block", &[&format!("{}x\n{}a\n\n{}b\n", p(0), p(x), p(y))]);
        }
    }
}

// ---------------------------------------------------------------- C11

fn c11(ctx: &mut Ctx) {
    let n = ctx.pick(3, 4);
    word_cases(ctx, "text of special characters, 12 styles", &["a", " ", "\n", "\t", "\r", "\"", "\\", "\u{0}", "\u{a0}", "é"], n, |c, s| c.run("all", &[s]));
    let n = ctx.pick(4, 6);
    word_cases(ctx, "text of special characters, 2 styles", &["a", " ", "\n", "\"", "\\"], n, |c, s| c.run("two", &[s]));
    let n = ctx.pick(6, 8);
    word_cases(ctx, "text of special characters, one place of each kind", &["a", " ", "\n", "\"", "\\", "\t"], n, |c, s| c.run("one", &[s]));
    let n = ctx.pick(5, 6);
    word_cases(ctx, "control characters too, one place of each kind", &["a", " ", "\n", "\"", "\\", "\r", "\u{0}", "\u{8}", "\u{feff}", "\u{7f}", "\u{2028}"], n, |c, s| c.run("one", &[s]));
    let n = ctx.pick(6, 7);
    word_cases(ctx, "quotes by one and by three, one place of each kind", &["\"\"\"", "\"", "\\", "a", " ", "\n"], n, |c, s| c.run("one", &[s]));
    let lines = ["", " ", "\t", "a", " a", "  a", "a ", "\"", "\"\"\"", "\"a\"", "\\", "a\\", "\\\"\"\"", "\u{a0}", "\u{3000}x", "\r", "# c", "{", "é😀", "\u{b}"];
    let k = ctx.pick(2, 3);
    ctx.group(&format!("all lists of <= {} lines from a menu of {}, 12 styles", k, lines.len()));
    let mut acc = vec![];
    lists(&lines, k, &mut acc, &mut |w| ctx.go("all", &[&w.join("\n")]));
    let k = ctx.pick(4, 5);
    ctx.group(&format!("all lists of <= {} lines from a menu of {}, one place of each kind", k, lines.len()));
    let mut acc = vec![];
    lists(&lines, k, &mut acc, &mut |w| ctx.go("one", &[&w.join("\n")]));
    ctx.group("every Unicode scalar value: alone, in a line, at the start and end of lines");
    for cp in 0..0x110000u32 {
        if let Some(ch) = char::from_u32(cp) {
            if ctx.mine() {
                ctx.run("uni", &[&format!("{}", ch)]);
                ctx.run("uni", &[&format!("a{}b\n{}c\n  d{}", ch, ch, ch)]);
                if cp < 0x3100 || ctx.thorough() {
                    ctx.run("few", &[&format!("{}", ch)]);
                    ctx.run("one", &[&format!("{}\nx", ch)]);
                    ctx.run("one", &[&format!("x\n{}", ch)]);
                    ctx.run("one", &[&format!("x\n{}\ny", ch)]);
                    ctx.run("one", &[&format!("{}{}", ch, ch)]);
                    ctx.run("one", &[&format!("\"{}\\{}", ch, ch)]);
                }
            }
        }
    }
    ctx.group("a piece inside long text, 20 lengths before x 20 after");
    let pads: [usize; 20] = [0, 1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 256, 257, 4096, 65536];
    for a in ["\"", "\\", "\n", "\t", "\r", "\u{0}", "\"\"\"", "\\\"\"\"", "é", "\n\n", "\n \n", "\n  x\ny", "\u{7f}", "\u{feff}", "\\n", "\"\"\"\n", "\n\\"] {
        for x in ["a", "é", " "] {
            for i in pads {
                for j in pads {
                    ctx.go("one", &[&format!("{}{}{}", x.repeat(i), a, x.repeat(j))]);
                }
            }
        }
    }
    ctx.group("a line among many others: 33..1025 lines, at the start, in the middle, at the end, at each of the first 130 places");
    let special = ["\r", "\u{1}", "", " ", "\t", "\"\"\"", "\"", "\\", "    x", "\tx", "x\ry", "\u{a0}", "x\\", "é\"", "x\u{7f}", "\u{0}x", " \"\"\" "];
    for (a, b) in [("x", "x"), ("  x", "x"), ("x", " x"), ("", "x"), ("x", "")] {
        for n in [33usize, 101, 257, 1025] {
            for w in special {
                for at in [0, 1, n / 2, n - 2, n - 1, n] {
                    if ctx.mine() {
                        let mut v: Vec<&str> = (0..n).map(|k| if k % 2 == 0 { a } else { b }).collect();
                        v.insert(at, w);
                        ctx.run("one", &[&v.join("\n")]);
                    }
                }
            }
        }
    }
    for w in special {
        for at in 0..130 {
            if ctx.mine() {
                let mut v: Vec<&str> = vec!["x"; 130];
                v[at] = w;
                ctx.run("one", &[&v.join("\n")]);
            }
        }
    }
    ctx.group("long text: a part repeated, then another");
    let parts = ["a", " ", "\n", "\"", "\\", "\t", "\u{1}", "é", "😀", "ab\n", " a\n", "\"\"\"", "\u{200b}"];
    for a in parts {
        for b in parts {
            for k in [2, 3, 7, 40, 80, 120, 255, 256, 1024] {
                ctx.go("one", &[&format!("{}{}", a.repeat(k), b)]);
                ctx.go("one", &[&format!("{}{}{}", b, a.repeat(k), b)]);
            }
        }
    }
}

// ---------------------------------------------------------------- C12

fn c12(ctx: &mut Ctx) {
    let n = ctx.pick(6, 7);
    word_cases(ctx, "number characters", &["0", "1", "9", "+", "-", ".", "e", "E"], n, |c, s| c.run("lexeme", &[s]));
    let n = ctx.pick(4, 5);
    word_cases(ctx, "digits, signs, dots, exponents, others", &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "+", "-", ".", "e", "E", "a", "_", "x"], n, |c, s| c.run("lexeme", &[s]));
    let mut ints: Vec<i128> = (-1100..=1100).collect();
    for k in 0..70 {
        for d in -2..=2 {
            ints.push((1i128 << k) + d);
            ints.push(-(1i128 << k) + d);
        }
    }
    let mut p = 1i128;
    for _ in 0..30 {
        for d in -2..=2 {
            for m in 1..=9 {
                ints.push(p * m + d);
                ints.push(-p * m + d);
            }
        }
        p *= 10;
    }
    for d in -300..=300 {
        ints.push(i64::MAX as i128 + d);
        ints.push(i64::MIN as i128 + d);
        ints.push(i32::MAX as i128 + d);
        ints.push(u32::MAX as i128 + d);
        ints.push(u64::MAX as i128 + d);
        ints.push((1i128 << 53) + d);
    }
    ctx.group("integers around 0, every power of two and ten, 2^31, 2^32, 2^53, 2^63 and 2^64; with fractions and exponents");
    for i in &ints {
        if ctx.mine() {
            ctx.run("lexeme", &[&i.to_string()]);
            for t in [".0", ".5", ".25", ".000001", ".999999999999999999999", "e0", "e1", "E5", "e-3", "e+7", ".5e1", ".5E-2", ".125e+19", "e18", "e19", "e-20", "e300", "e-300", "0"] {
                ctx.run("lexeme", &[&format!("{}{}", i, t)]);
            }
        }
    }
    ctx.group("d.ddd x 10^e for e in -400..400");
    for e in -400..=400i32 {
        if ctx.mine() {
            for m in ["1", "2", "3", "4", "5", "7", "9", "1.5", "1.7976931348623157", "1.7976931348623159", "2.2250738585072014", "4.9", "2.4", "2.5", "9.999999999999999", "9007199254740993", "0.1", "123456789.123456789", "-1", "-4.9", "0.0", "-0.0"] {
                ctx.run("lexeme", &[&format!("{}e{}", m, e)]);
                ctx.run("lexeme", &[&format!("{}E{:+}", m, e)]);
                ctx.run("lexeme", &[&format!("{}e{}{:03}", m, if e < 0 { "-" } else { "+" }, e.abs())]);
            }
        }
    }
    ctx.group("long digit strings");
    for k in [17, 18, 19, 20, 21, 25, 39, 40, 100, 308, 309, 310, 400, 767, 768, 769, 1100, 5000] {
        for d in ["1", "9", "5", "12345678909876543210"] {
            let s: String = d.chars().cycle().take(k).collect();
            for t in [s.clone(), format!("-{}", s), format!("0.{}", s), format!("{}.5", s), format!("{}e-{}", s, k), format!("0.{}1e5", "0".repeat(k)), format!("{}.{}e-{}", s, s, k), format!("1.{}{}", "0".repeat(k), d)] {
                ctx.go("lexeme", &[&t]);
            }
        }
    }
    ctx.group("doubles: every exponent x 33 mantissas x sign");
    let mut mant: Vec<u64> = vec![0, 1, 2, 3, 0xfffffffffffff, 0xffffffffffffe, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x123456789abcd, 0x8000000000001, 0x7ffffffffffff];
    for k in (1..52).step_by(if ctx.thorough() { 1 } else { 2 }) {
        mant.push(1 << k);
        mant.push((1 << k) - 1);
    }
    for e in 0..0x7ffu64 {
        if ctx.mine() {
            for m in &mant {
                for s in [0u64, 1] {
                    ctx.run("float", &[&format!("{:x}", s << 63 | e << 52 | m)]);
                }
            }
        }
    }
    ctx.group("doubles: 0.001 .. 1000 in steps, thirds, sums of tenths; infinities");
    for i in 0..ctx.pick(4000, 100000) {
        if ctx.mine() {
            for f in [i as f64 / 1000.0, i as f64 / 3.0, -(i as f64) / 7.0, i as f64 * 0.1, i as f64 * 1e15, i as f64 * 1e17 + 0.5, 1.0 / (i as f64)] {
                ctx.run("float", &[&format!("{:x}", f.to_bits())]);
            }
        }
    }
    ctx.group("every 32-bit integer through Number, in ranges of 2^20");
    for k in 0..4096i64 {
        let lo = i32::MIN as i64 + (k << 20);
        ctx.go("i32", &[&lo.to_string(), &(lo + (1 << 20)).to_string()]);
    }
}

// ---------------------------------------------------------------- C13

const LITERALS: [&str; 9] = ["\"é\"", "\"😀\"", "\"\\t\"", "\"\t\"", "\"\u{feff}\"", "\"\"\"a\nb\"\"\"", "\"\"\"\r\n\ta\r b\n\"\"\"", "\"\"\"\u{feff}😀\"\"\"", "\"\"\"\n\n\"\"\""];

/// the tokens with `sep` before token i (i = number of tokens: at the end)
fn with_gap(t: &[String], i: usize, sep: &str) -> String {
    let mut s = String::new();
    for (k, x) in t.iter().enumerate() {
        if k == i {
            s.push_str(sep);
        } else if k > 0 && must_separate(&t[k - 1], x) {
            s.push(' ');
        }
        s.push_str(x);
    }
    if i >= t.len() {
        s.push_str(sep);
    }
    s
}
/// ignored text that keeps tokens apart
fn joined(t: &[String], sep: &str, lead: bool) -> String {
    let mut s = String::new();
    if lead {
        s.push_str(sep);
    }
    s.push_str(&t.join(sep));
    if lead {
        s.push_str(sep);
    }
    s
}

fn spread_out(ctx: &mut Ctx, l: &Lang, size: (usize, usize), nest: (usize, usize)) {
    let m = l.m;
    let d = ctx.pick(nest.0, nest.1);
    let go = |c: &mut Ctx, t: &[String]| {
        for sep in IGNORED {
            c.run("", &[m, &joined(t, sep, true)]);
        }
        c.run("", &[m, &tight(t)]);
    };
    fam::transitions(ctx, l, d, Names::Uniq, "the same ignored text in every gap (34 texts)", &mut { go });
    fam::transitions(ctx, l, ctx.pick(1, 2), Names::Uniq, "one gap with each ignored text, the others tight", &mut |c, t| {
        for i in 0..=t.len() {
            for sep in IGNORED {
                c.run("", &[m, &with_gap(t, i, sep)]);
            }
        }
    });
    fam::transitions(ctx, l, d, Names::Uniq, "each string replaced by literals that move lines or columns", &mut |c, t| {
        fam::substitute(t, &mut |_, w| if w.starts_with('"') { LITERALS.to_vec() } else { vec![] }, &mut |v| {
            c.run("", &[m, &spaced(v)]);
            c.run("", &[m, &joined(v, "\n", false)]);
            c.run("", &[m, &joined(v, "\t", false)]);
        });
    });
    let n = ctx.pick(size.0, size.1);
    fam::all(ctx, l, n, Names::Uniq, "spaces", &mut |c, t| {
        c.run("", &[m, &spaced(t)]);
        c.run("", &[m, &joined(t, "\r\n\t", true)]);
    });
    fam::pumps(ctx, l, 2, &[2, 3], "", &mut { go });
    fam::pumps(ctx, l, 1, &[60, 300], "", &mut |c, t| {
        c.run("", &[m, &spaced(t)]);
        c.run("", &[m, &joined(t, "\n", true)]);
    });
    fam::loop_pairs(ctx, l, 1, "", &mut |c, t| {
        c.run("", &[m, &spaced(t)]);
        c.run("", &[m, &joined(t, "\r", true)]);
    });
    full_sentences(ctx, l, &mut |c, t| c.run("", &[m, &joined(t, " ", false)]));
    fam::rich(ctx, l, &[1, 2], 24, &[0, 2, 7], Names::Uniq, "the same ignored text in every gap (34 texts)", &mut { go });
    huge(ctx, l, &mut |c, s| c.run("", &[m, s]));
    substitutions(ctx, l, "", 2);
    deep_docs(ctx, "", m);
    ctx.group("all sequences of <= 5 pieces of ignored text before a definition");
    let doc = if m == "q" { "query Q{a}" } else { "type A{a:T}" };
    let n = ctx.pick(5, 6);
    let pieces = [" ", "\t", "\n", "\r", "\u{feff}", ",", "#é\n", "#\t\r"];
    let c = fam::words(&pieces, n, |s| {
        if ctx.mine() {
            ctx.run("", &[m, &format!("{}{}", s, doc)]);
            ctx.run("", &[m, &format!("{} {} {}", doc, s, doc)]);
        }
    });
    ctx.model(c, c - 1);
}
fn c13(ctx: &mut Ctx) {
    spread_out(ctx, &Lang::q(), (11, 14), (3, 4));
    spread_out(ctx, &Lang::s(), (8, 10), (2, 3));
    schema_ops(ctx, "");
}

// ---------------------------------------------------------------- C14

const BROKEN: [&str; 30] = [
    "\"", "\"abc", "\"a\nb\"", "\"\"\"", "\"\"\"a\n", "01", "-", "-a", "1.", "1.a", "1e", "1e+", "1a", "1.5x", "..", ".", "....", ";", "%", "\0", "é", "\\", "\"\\q\"", "\"\\u12\"", "\"\\uD800\"",
    "99999999999999999999", "-9223372036854775809", "\u{a0}", "0x1", "\"\"\"\"",
];
/// tokens of 1..170 and more characters, of one to four bytes each, that stand
/// where they are wrong; malformed ones too
fn long_wrong(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &'static str, &str)) {
    ctx.group("wrong and malformed tokens of 1..170 and 250..260 characters of one to four bytes, in 12 places");
    let places: [(&'static str, &str, &str); 12] = [
        ("q", "", ""), ("q", "query Q ", " {a}"), ("q", "{a(", ")}"), ("q", "{a(b:1) ", " c}"), ("q", "{a}\n\n", ""), ("q", "query($v:", "){a}"),
        ("s", "type ", "{a:T}"), ("s", "type A{a:T ", "}"), ("s", "scalar A\n", " 1"), ("s", "schema{", ":Q}"), ("s", "directive @a on ", ""), ("s", "enum A{B} ", ""),
    ];
    for n in (1..170).chain(250..260).chain([1000, 1023, 1024, 1025, 4096]) {
        for c in ["a", "é", "€", "😀"] {
            for lead in ["", "x", "xy", "xyz"] {
                if !ctx.mine() {
                    continue;
                }
                let t = format!("{}{}", lead, c.repeat(n));
                for tok in [format!("\"{}\"", t), format!("\"\"\"{}\"\"\"", t), format!("\"{}\\q\"", t), format!("\"{}\n\"", t), format!("\"\"\"{}", t), t.clone(), "1".repeat(t.len()), format!("{};", t), format!("-{}", t)] {
                    for (m, a, b) in places {
                        f(ctx, m, &format!("{}{}{}", a, tok, b));
                    }
                }
            }
        }
    }
}
/// well-formed and malformed tokens of every make where they do not belong
fn special_wrong(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &'static str, &str)) {
    let places: [(&'static str, &str, &str); 10] = [
        ("q", "", ""), ("q", "{a(", ")}"), ("q", "{a(b:1) ", " c}"), ("q", "{a}\n", ""), ("q", "query($v:", "){a}"), ("s", "type ", "{a:T}"), ("s", "type A{a:T ", "}"), ("s", "schema{", ":Q}"), ("s", "directive @a on ", ""), ("s", "union A=", "|B"),
    ];
    ctx.group("each word of the menus as a wrong token, in 10 places");
    let words: Vec<&str> = STR_WORDS.iter().chain(&BLOCK_WORDS).chain(&INT_WORDS).chain(&FLOAT_WORDS).chain(&NAME_WORDS).chain(&PUNCT).copied().collect();
    for w in &words {
        for (m, a, b) in places {
            if ctx.mine() {
                f(ctx, m, &format!("{}{}{}", a, w, b));
                f(ctx, m, &format!("{}{} {}", a, w, b));
            }
        }
    }
    ctx.group("each pair of ASCII characters, and each character below U+3000 alone, in strings, block strings and comments as or before a wrong token");
    let mut one = |ctx: &mut Ctx, s: &str| {
        for t in [format!("\"{}\"", s), format!("\"\"\"{}\"\"\"", s), format!("\"x{}y\"", s), format!("\"\"\"x{}y\"\"\"", s), format!("#{}\n1", s), format!("1{}", s)] {
            for (m, a, b) in [places[2], places[6]] {
                f(ctx, m, &format!("{}{}{}", a, t, b));
            }
        }
    };
    for a in 0..128u8 {
        for b in 0..128u8 {
            if ctx.mine() {
                one(ctx, &format!("{}{}", a as char, b as char));
            }
        }
    }
    for c in (0..0x3000).chain(0xfe00..0x10000).chain(0x1f600..0x1f640) {
        if let Some(c) = char::from_u32(c) {
            if ctx.mine() {
                one(ctx, &c.to_string());
            }
        }
    }
}
fn wrong(ctx: &mut Ctx, l: &Lang, nest: (usize, usize)) {
    let m = l.m;
    let d = ctx.pick(nest.0, nest.1);
    fam::negatives(ctx, l, d, Names::Uniq, "spaced, tight, lines, CRLF + tab", &mut |c, t| {
        c.run("", &[m, &spaced(t)]);
        c.run("", &[m, &tight(t)]);
        c.run("", &[m, &joined(t, "\n", true)]);
        c.run("", &[m, &joined(t, "\r\n\t", true)]);
        c.run("", &[m, &joined(t, " #é\r", true)]);
    });
    fam::negatives(ctx, l, 1, Names::Uniq, "each ignored text before the last tokens and in all gaps", &mut |c, t| {
        for sep in IGNORED {
            c.run("", &[m, &joined(t, sep, true)]);
            c.run("", &[m, &with_gap(t, t.len(), sep)]);
            if !t.is_empty() {
                c.run("", &[m, &with_gap(t, t.len() - 1, sep)]);
            }
        }
    });
    let go = |c: &mut Ctx, t: &[String]| {
        let mut v = t.to_vec();
        for i in 0..=t.len() {
            for b in BROKEN {
                v.insert(i, b.to_string());
                c.run("", &[m, &spaced(&v)]);
                c.run("", &[m, &joined(&v, "\n", false)]);
                if i < t.len() {
                    let x = v.remove(i + 1);
                    c.run("", &[m, &spaced(&v)]);
                    c.run("", &[m, &tight(&v)]);
                    v.insert(i + 1, x);
                }
                v.remove(i);
            }
            c.run("", &[m, &spaced(&t[..i])]);
            c.run("", &[m, &format!("{}\n", joined(&t[..i], "\n", true))]);
        }
    };
    fam::transitions(ctx, l, ctx.pick(1, 2), Names::Uniq, "every prefix, and 30 malformed lexemes inserted and substituted everywhere", &mut { go });
    fam::transitions(ctx, l, d, Names::Uniq, "every token deleted, doubled or swapped with the next", &mut |c, t| {
        let mut v: Vec<String> = t.to_vec();
        for i in 0..t.len() {
            let x = v.remove(i);
            c.run("", &[m, &spaced(&v)]);
            v.insert(i, x.clone());
            v.insert(i, x);
            c.run("", &[m, &spaced(&v)]);
            v.remove(i);
            if i + 1 < t.len() {
                v.swap(i, i + 1);
                c.run("", &[m, &spaced(&v)]);
                v.swap(i, i + 1);
            }
        }
    });
    fam::transitions(ctx, l, 2, Names::Uniq, "each name replaced by each word of the name menu", &mut |c, t| {
        fam::substitute(t, &mut |_, w| fam::name_menu(w), &mut |v| c.run("", &[m, &spaced(v)]));
    });
    let broken = |c: &mut Ctx, t: &[String]| {
        let mut v: Vec<String> = t.to_vec();
        let n = t.len();
        for k in [n / 2, n.saturating_sub(3), n.saturating_sub(1)] {
            if k >= n {
                continue;
            }
            for b in ["", ";", ")", "}", "1", "\"a"] {
                v[k] = b.to_string();
                c.run("", &[m, &spaced(&v)]);
            }
            v[k] = t[k].clone();
            c.run("", &[m, &joined(&t[..k], "\n", false)]);
        }
    };
    fam::rich(ctx, l, &[1], if m == "q" { 8 } else { 30 }, ctx.pick(&[2, 5, 9, 17, 33, 65, 129, 257], &[2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025]), Names::Uniq, "cut, or a token left out or replaced by another, at three places", &mut { broken });
    fam::pumps(ctx, l, 1, ctx.pick(&[5, 9, 17, 33, 129, 257], &[2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025]), "cut, or a token left out or replaced by another, at three places", &mut { broken });
    fam::rich(ctx, l, &[1, 2, 3], 12, &[], Names::Uniq, "each token replaced by each of 9 others, deleted, doubled, cut there", &mut |c, t| {
        let mut v: Vec<String> = t.to_vec();
        for i in 0..t.len() {
            for b in ["", ";", ")", "}", "1", "\"a", "a b", "{", "on"] {
                v[i] = b.to_string();
                c.run("", &[m, &spaced(&v)]);
            }
            v[i] = format!("{0} {0}", t[i]);
            c.run("", &[m, &spaced(&v)]);
            v[i] = t[i].clone();
            c.run("", &[m, &joined(&t[..i], "\r\n\t", false)]);
        }
    });
    fam::pumps(ctx, l, 1, &[3, 60], "cut before the last token", &mut |c, t| {
        for k in 1..t.len().min(12) {
            c.run("", &[m, &spaced(&t[..t.len() - k])]);
        }
    });
    let alpha: Vec<String> = l.g.syms.iter().map(|s| format!("{} ", s.0)).collect();
    let refs: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
    ctx.group(&format!("all strings of <= 3 of the {} token symbols", refs.len()));
    let c = fam::words(&refs, 3, |s| ctx.go("", &[m, s]));
    ctx.model(c, c - 1);
}
fn c14(ctx: &mut Ctx) {
    long_wrong(ctx, &mut |c, m, s| c.run("", &[m, s]));
    special_wrong(ctx, &mut |c, m, s| c.run("", &[m, s]));
    wrong(ctx, &Lang::q(), (3, 5));
    wrong(ctx, &Lang::s(), (2, 3));
    schema_ops(ctx, "");
    for l in [Lang::q(), Lang::s()] {
        huge(ctx, &l, &mut |c, s| {
            let b = s.len() - 1;
            let b = (0..=b).rev().find(|i| s.is_char_boundary(*i)).unwrap();
            c.run("", &[l.m, &format!("{} ;", s)]);
            if s.len() < 300000 {
                c.run("", &[l.m, &s[..b]]);
                c.run("", &[l.m, &format!("{}}} \"", s)]);
            }
        });
    }
    let n = ctx.pick(4, 5);
    word_cases(ctx, "one character per lexical class after `{a(b:`", &CLASSES, n, |c, s| c.run("", &["q", &format!("{{a(b:{}", s)]));
    let n = ctx.pick(3, 4);
    word_cases(ctx, "one character per lexical class, schema", &CLASSES, n, |c, s| c.run("", &["s", &format!("type A {}", s)]));
    ctx.group("extensions that add nothing, in contexts");
    for k in ["scalar", "type", "interface", "union", "enum", "input"] {
        for pre in ["", "\n", "\t", "scalar A ", "\"d\" type B{a:T}\r\n", "#é\r", "extend type A implements B\n  "] {
            for mid in [" ", "\n", "\r\n\t"] {
                for post in ["", " ", "\n", " scalar B", "{", "}", "=", " extend type A", " \"x\""] {
                    ctx.go("", &["s", &format!("{}extend{}{}{}A{}", pre, mid, k, mid, post)]);
                }
            }
        }
    }
    deep_over(ctx, &mut |c, m, s| c.go("", &[m, s]));
}

// ---------------------------------------------------------------- C15

/// all documents around the limit: kinds of brackets, depth, siblings
fn deep_over(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &'static str, &str)) {
    ctx.group("nesting 45..56 deep: value brackets by pattern x place x siblings");
    let sib = ["", "1 ", "[] {} ", "[[[]]] ", "{k:[{l:1}]} ", "\"{\" "];
    // values: v(depth)
    let value = |pat: &str, d: usize, sb: &str, after: bool| -> String {
        let mut s = String::from("1");
        for k in 0..d {
            let b = if after { sb } else { "" };
            let a = if after { "" } else { sb };
            s = match pat.as_bytes()[k % pat.len()] {
                b'L' => format!("[{}{} {}]", a, s, b),
                _ => {
                    let x = if sb.is_empty() { String::new() } else { format!("x:[{}]", sb) };
                    if after {
                        format!("{{k:{} {}}}", s, x)
                    } else {
                        format!("{{{} k:{}}}", x, s)
                    }
                }
            };
        }
        s
    };
    let places: [(&'static str, usize, &str, &str); 16] = [
        ("q", 2, "{a(b:", ")}"),
        ("q", 2, "{a @d(b:", "){c}}"),
        ("q", 1, "query @d(b:", "){a}"),
        ("q", 1, "query($v:T=", "){a}"),
        ("q", 1, "{a{b}} query($w:[T] $v:[[T]]=", " $x:T){a{b{c}}}"),
        ("q", 3, "{x(y:[1]){z}a{b(c:", ")}}"),
        ("q", 2, "{...@d(b:", "){c}}"),
        ("q", 2, "fragment F on T{...G@d(b:", ") ...on T{a}}"),
        ("q", 1, "fragment F on T @d(b:", "){a}"),
        ("s", 2, "type A{a(b:T=", "):T}"),
        ("s", 2, "type A{a:T @d(b:", ") c:[T]}"),
        ("s", 1, "type A @d(b:", "){a:T}"),
        ("s", 1, "input A{a:[[T]]=", " b:T}"),
        ("s", 2, "enum A{B @d(c:", ") D}"),
        ("s", 1, "directive @a(b:T=", " c:T) on FIELD"),
        ("s", 1, "schema @d(b:", "){query:Q}"),
    ];
    for (m, base, pre, post) in places {
        for pat in ["L", "O", "LO", "LLO"] {
            for sb in sib {
                for d in 45..=56usize {
                    for after in [false, true] {
                        let s = format!("{}{}{}", pre, value(pat, d - base, sb, after), post);
                        f(ctx, m, &s);
                    }
                }
            }
        }
    }
    ctx.group("nesting 45..56 deep: selection sets and list types x siblings");
    let sibs = ["", "x ", "x{y{z}} ", "x(y:[[{z:1}]]) ", "...{x} ", "...F @d(e:[1]) ", "x @d(e:{f:[]}){y} "];
    for sb in sibs {
        for d in 45..=56usize {
            for (open, close) in [("{a", "}"), ("{...", "}"), ("{...on T", "}"), ("{b:a(c:[1])", "}"), ("{a@d(e:1)", "}")] {
                f(ctx, "q", &format!("{}{}{{b}}{}", sb_first(sb), open_n(open, sb, d - 1), close.repeat(d - 1)));
                f(ctx, "q", &format!("{}{}{{b}}{}", sb_first(sb), open_n(open, "", d - 1), format!(" {}{}", sb, close).repeat(d - 1)));
                for k in [1, 2, 5] {
                    f(ctx, "q", &format!("{}{{b(c:{}1{})}}{}", open_n(open, sb, d - 2 - k), "[".repeat(k), "]".repeat(k), close.repeat(d - 2 - k)));
                }
            }
        }
    }
    for d in 45..=56usize {
        for nn in ["", "!"] {
            f(ctx, "q", &format!("query($v:{}T{}){{a}}", "[".repeat(d - 1), format!("]{}", nn).repeat(d - 1)));
            f(ctx, "q", &format!("query($u:[[T]] $v:{}T{} $w:[T]){{a{{b}}}}", "[".repeat(d - 1), format!("]{}", nn).repeat(d - 1)));
            f(ctx, "s", &format!("type A{{a:{}T{} b:[T]}}", "[".repeat(d - 1), format!("]{}", nn).repeat(d - 1)));
            f(ctx, "s", &format!("type A{{a(c:[T]b:{}T{}):[T]}}", "[".repeat(d - 2), format!("]{}", nn).repeat(d - 2)));
            f(ctx, "s", &format!("directive @a(b:{}T{}) on FIELD", "[".repeat(d - 1), format!("]{}", nn).repeat(d - 1)));
            f(ctx, "s", &format!("input A{{a:[T] b:{}T{}}}", "[".repeat(d - 1), format!("]{}", nn).repeat(d - 1)));
        }
        for (o, c) in [("{", "}"), ("(", ")"), ("[", "]"), ("{a", ""), ("[", ""), ("(", "")] {
            for pre in ["", "{a(b:", "query($v:", "type A{a:", "\"x\" "] {
                for m in ["q", "s"] {
                    f(ctx, m, &format!("{}{}{}", pre, o.repeat(d), c.repeat(d)));
                }
            }
        }
    }
}
fn sb_first(sb: &str) -> &'static str {
    if sb.is_empty() {
        ""
    } else {
        "query Q($v:[[T]]=[{k:[1]}]) @d(e:[[]]) {x{y}} "
    }
}
fn open_n(open: &str, sb: &str, n: usize) -> String {
    if sb.is_empty() {
        return open.repeat(n);
    }
    // siblings stand first in every selection set
    format!("{{{}{}", sb, &open[1..]).repeat(n)
}

fn c15(ctx: &mut Ctx) {
    deep_over(ctx, &mut |c, m, s| c.go("", &[m, s]));
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        let go = |c: &mut Ctx, t: &[String]| {
            c.run("", &[m, &spaced(t)]);
            c.run("", &[m, &tight(t)]);
            c.run("", &[m, &joined(t, "\n", false)]);
        };
        fam::pumps(ctx, &l, 2, &[2, 26, 51, 60, 120], "", &mut { go });
        fam::pumps(ctx, &l, 1, ctx.pick(&[300, 3000], &[300, 3000, 70000]), "", &mut { go });
        fam::loop_pairs(ctx, &l, 1, "", &mut { go });
        fam::edge_pumps(ctx, &l, 3, &[60], "", &mut { go });
        let d = ctx.pick(3, 4);
        fam::transitions(ctx, &l, d, Names::Uniq, "", &mut { go });
        fam::negatives(ctx, &l, 2, Names::Uniq, "", &mut { go });
        let n = ctx.pick(9, 11);
        fam::all(ctx, &l, n - (m == "s") as usize * 2, Names::Same, "", &mut { go });
    }
    // does anything that came before change the limit for what follows?
    let probes = |c: &mut Ctx, m: &'static str, s: &str| {
        for d in [50usize, 51] {
            let ends = if m == "q" {
                vec![
                    format!("{}{{b}}{}", "{a".repeat(d - 1), "}".repeat(d - 1)),
                    format!("query($v:T={}1{}){{a}}", "[".repeat(d - 1), "]".repeat(d - 1)),
                    format!("query($v:{}T{}){{a}}", "[".repeat(d - 1), "]!".repeat(d - 1)),
                ]
            } else {
                vec![
                    format!("type A{{a:{}T{}}}", "[".repeat(d - 1), "]!".repeat(d - 1)),
                    format!("scalar A @d(e:{}1{})", "[{k:".repeat((d - 1) / 2) + &"[".repeat((d - 1) % 2), "]".repeat((d - 1) % 2) + &"}]".repeat((d - 1) / 2)),
                ]
            };
            for e in ends {
                c.run("", &[m, &format!("{}\n{}", s, e)]);
                c.run("", &[m, &format!("{}{}{}", s, e, s)]);
            }
        }
    };
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        let go = |c: &mut Ctx, t: &[String]| {
            // an `extend` that adds nothing ends the parse
            probes(c, m, &spaced(t));
        };
        fam::transitions(ctx, &l, ctx.pick(if m == "q" { 4 } else { 3 }, 5), Names::Uniq, "then nesting of 50 and 51", &mut { go });
        fam::pumps(ctx, &l, 2, &[2, 20], "then nesting of 50 and 51", &mut { go });
        fam::rich(ctx, &l, &[1, 2, 3], 24, &[0, 2, 7, 40], Names::Uniq, "then nesting of 50 and 51", &mut { go });
        fam::loop_pairs(ctx, &l, 1, "then nesting of 50 and 51", &mut { go });
        fam::all(ctx, &l, ctx.pick(if m == "q" { 10 } else { 7 }, if m == "q" { 12 } else { 9 }), Names::Same, "then nesting of 50 and 51", &mut { go });
        ctx.group("every kind of nesting 1..49 deep, 1 and 3 times, then nesting of 50 and 51");
        for d in 1..=49usize {
            let kinds: Vec<String> = if m == "q" {
                vec![
                    format!("{}{{b}}{}", "{a".repeat(d - 1), "}".repeat(d - 1)),
                    format!("{}{{b}}{}", "{...".repeat(d - 1), "}".repeat(d - 1)),
                    format!("{}{{b}}{}", "{...on T@d(e:[])".repeat(d - 1), "c}".repeat(d - 1)),
                    format!("query($v:T={}1{}){{a}}", "[".repeat(d - 1), "]".repeat(d - 1)),
                    format!("query($v:T={}1{}){{a}}", "{k:".repeat(d - 1), "}".repeat(d - 1)),
                    format!("query($v:T={}1{} $w:T={{}}){{a}}", "[1 ".repeat(d - 1), "{}]".repeat(d - 1)),
                    format!("query($v:{}T{}){{a}}", "[".repeat(d - 1), "]!".repeat(d - 1)),
                    format!("query($v:{}T{}){{a}}", "[".repeat(d - 1), "]".repeat(d - 1)),
                    format!("query($v:{}T!{}!=1){{a}}", "[".repeat(d - 1), "]".repeat(d - 1)),
                    format!("query @d(e:{}$v{}){{a}}", "[".repeat(d - 1), "]".repeat(d - 1)),
                    format!("query @d(e:{}$v{}){{a}}", "{k:".repeat(d - 1), "}".repeat(d - 1)),
                    format!("fragment F on T{{...G@d(e:{}$v{})}}", "{k:".repeat(d.saturating_sub(2)), "}".repeat(d.saturating_sub(2))),
                ]
            } else {
                vec![
                    format!("type A{{a:{}T{}}}", "[".repeat(d - 1), "]!".repeat(d - 1)),
                    format!("input A{{a:{}T{}=1}}", "[".repeat(d - 1), "]".repeat(d - 1)),
                    format!("input A{{a:{}T!{}!=[]}}", "[".repeat(d - 1), "]".repeat(d - 1)),
                    format!("extend input A{{a:T={}1{}}}", "[".repeat(d - 1), "]".repeat(d - 1)),
                    format!("directive @a(b:T={}1{}) on FIELD", "{k:".repeat(d - 1), "}".repeat(d - 1)),
                    format!("scalar A @d(e:{}1{})", "[[] ".repeat(d - 1), "{}]".repeat(d - 1)),
                    format!("\"x\" enum A{{B @d(e:{}1{})}}", "{k:".repeat(d.saturating_sub(2)), "}".repeat(d.saturating_sub(2))),
                    format!("schema @d(e:{}1{}){{query:Q}}", "{k:".repeat(d - 1), "}".repeat(d - 1)),
                    format!("interface A{{a(b:{}T{}):T}}", "[".repeat(d.saturating_sub(2)), "]!".repeat(d.saturating_sub(2))),
                    format!("extend union A @d(e:{}1{})", "[".repeat(d - 1), "]".repeat(d - 1)),
                ]
            };
            for k in kinds {
                if ctx.mine() {
                    probes(ctx, m, &k);
                    probes(ctx, m, &format!("{} ", k).repeat(3));
                }
            }
        }
    }
    // the whole grammar again, standing just below the limit
    let q = Lang::q();
    let ks: &[usize] = if ctx.thorough() { &[40, 44, 45, 46, 47, 48, 49, 50, 51] } else { &[46, 47, 48, 49, 50] };
    fam::transitions(ctx, &q, 4, Names::Uniq, "inside 46..50 selection sets", &mut |c, t| {
        if t[0] == "{" {
            for s in [spaced(t), tight(t)] {
                for k in ks {
                    c.run("", &["q", &format!("{}{}{}", "{a".repeat(*k), s, "}".repeat(*k))]);
                    c.run("", &["q", &format!("{}{}{}", "{a".repeat(*k), s, "b}".repeat(*k))]);
                }
            }
        }
    });
    fam::pumps(ctx, &q, 3, &[3, 60], "inside 45..50 selection sets", &mut |c, t| {
        if t[0] == "{" {
            for s in [spaced(t), tight(t)] {
                for k in [45, 46, 47, 48, 49, 50] {
                    c.run("", &["q", &format!("{}{}{}", "{a".repeat(k), s, "}".repeat(k))]);
                }
            }
        }
    });
    fam::negatives(ctx, &q, 3, Names::Uniq, "inside 47..50 selection sets", &mut |c, t| {
        if !t.is_empty() && t[0] == "{" {
            for s in [spaced(t), tight(t)] {
                for k in [47, 48, 49, 50] {
                    c.run("", &["q", &format!("{}{}{}", "{a".repeat(k), s, "}".repeat(k))]);
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C16

fn c16(ctx: &mut Ctx) {
    texts(ctx, "");
    let l = Lang::q();
    let d = ctx.pick(3, 4);
    fam::transitions(ctx, &l, d, Names::Uniq, "every ignored text in all gaps", &mut |c, t| {
        for sep in IGNORED {
            c.run("", &[&joined(t, sep, true)]);
        }
        c.run("", &[&tight(t)]);
        c.run("", &[&spaced(t)]);
    });
    fam::transitions(ctx, &l, 1, Names::Uniq, "one gap with each ignored text", &mut |c, t| {
        for i in 0..=t.len() {
            for sep in IGNORED {
                c.run("", &[&with_gap(t, i, sep)]);
            }
        }
    });
    fam::transitions(ctx, &l, 2, Names::Uniq, "each name and literal replaced by those of its menu", &mut |c, t| {
        fam::substitute(t, &mut |_, w| fam::name_menu(w), &mut |v| c.run("", &[&spaced(v)]));
        fam::substitute(t, &mut |_, w| fam::value_menu(w), &mut |v| {
            c.run("", &[&spaced(v)]);
            c.run("", &[&tight(v)]);
        });
    });
    fam::negatives(ctx, &l, 2, Names::Uniq, "", &mut |c, t| c.run("", &[&spaced(t)]));
    let n = ctx.pick(11, 14);
    fam::all(ctx, &l, n, Names::Uniq, "", &mut |c, t| {
        c.run("", &[&joined(t, "\n", false)]);
        c.run("", &[&tight(t)]);
    });
    fam::pumps(ctx, &l, 2, &[3, 60, 300], "", &mut |c, t| c.run("", &[&spaced(t)]));
    full_sentences(ctx, &l, &mut |c, t| {
        c.run("", &[&spaced(t)]);
        c.run("", &[&joined(t, "\n", true)]);
    });
    huge(ctx, &l, &mut |c, s| c.run("", &[s]));
    ctx.group("nested documents");
    deep_values(|_, s| ctx.go("", &[&s]));
    deep_over(ctx, &mut |c, m, s| {
        if m == "q" {
            c.go("", &[s])
        }
    });
    ctx.group("schema sentences are token texts too");
    let s = Lang::s();
    fam::transitions(ctx, &s, 1, Names::Uniq, "", &mut |c, t| {
        c.run("", &[&spaced(t)]);
        c.run("", &[&tight(t)]);
        c.run("", &[&joined(t, " #c\r\n,", true)]);
    });
}

// ---------------------------------------------------------------- C17

const TAILS: [&str; 62] = [
    "", " ", "\n", ",", "#c", "#c\n", "\u{feff}", "{", "}", "(", ")", "]", "[", "!", "...", ":", "$", "@", "a", "query", "fragment", "on", "{b}", "query{b}", "fragment F on T{b}", "subscription S{b} {c}", "1", "1.5",
    "\"x\"", "\"\"\"x\"\"\"", "\"", "\"\\q\"", "\"\"\"", "01", "99999999999999999999", ";", "é", "\0", "..", "}}}}", "{{{{", "query(", "%{b}", "{b",
    "\u{a0}", "\u{a0}{b}", "\u{2028}{b}", "\u{3000}\n{b}", "\u{b}{b}", "\u{c}", "\u{85}{b}", "\u{1f}", "\u{200b}{b}", "\u{fffe}{b}", "\u{2060}", "\u{7f}{b}", "\\{b}", "'a'", "-", "&{b}", "|{b}", "={b}",
];
fn c17(ctx: &mut Ctx) {
    let l = Lang::q();
    let d = ctx.pick(2, 4);
    fam::transitions(ctx, &l, d, Names::Uniq, "every tail, 4 ways to join", &mut |c, t| {
        let s = spaced(t);
        for x in TAILS {
            for j in ["", " ", "\r\n", "\t,#é\n\u{feff}"] {
                c.run("", &[&format!("{}{}{}", s, j, x)]);
            }
        }
    });
    fam::transitions(ctx, &l, d, Names::Uniq, "every ignored text between and around", &mut |c, t| {
        for sep in IGNORED {
            c.run("", &[&joined(t, sep, true)]);
        }
        c.run("", &[&tight(t)]);
    });
    fam::negatives(ctx, &l, d, Names::Uniq, "alone and before another definition", &mut |c, t| {
        let s = spaced(t);
        c.run("", &[&s]);
        c.run("", &[&format!("{} {{z}}", s)]);
        c.run("", &[&format!("{{z}} {}", s)]);
    });
    let n = ctx.pick(12, 14);
    fam::all(ctx, &l, n, Names::Uniq, "", &mut |c, t| c.run("", &[&spaced(t)]));
    fam::pumps(ctx, &l, 1, &[2, 3, 60, 300], "", &mut |c, t| c.run("", &[&spaced(t)]));
    fam::loop_pairs(ctx, &l, 1, "", &mut |c, t| c.run("", &[&spaced(t)]));
    full_sentences(ctx, &l, &mut |c, t| c.run("", &[&spaced(t)]));
    huge(ctx, &l, &mut |c, s| c.run("", &[s]));
    let defs = ["{a}", "query{a}", "query Q($v:[T]=[1]){a}", "mutation M @d(e:\"}\"){a{b}}", "subscription{a}", "fragment F on T{...G}", "{a(b:\"\"\"x\n}\"\"\")}"];
    let mut acc = vec![];
    let k = ctx.pick(4, 5);
    ctx.group(&format!("all sequences of <= {} of 7 definitions, 3 separators", k));
    lists(&defs, k, &mut acc, &mut |w| {
        for j in ["", "\n#c\n", " ,\u{feff}"] {
            ctx.go("", &[&w.join(j)]);
        }
    });
    ctx.group("definitions next to deep tails and deep definitions next to each other");
    for k in [1, 10, 49, 50, 51, 60] {
        let deep = format!("{}{{b}}{}", "{a".repeat(k - 1), "}".repeat(k - 1));
        for x in ["{a}", &deep, &"{".repeat(k), &"}".repeat(k), &"[".repeat(k), ")]}"] {
            ctx.go("", &[&format!("{} {}", deep, x)]);
            ctx.go("", &[&format!("{} {} {}", deep, x, deep)]);
            ctx.go("", &[&format!("{{a}} {} {}", deep, x)]);
        }
    }
    for k in [100, 1000] {
        ctx.go("", &[&"{a} query Q{b(c:[1])}\n".repeat(k)]);
    }
    let n = ctx.pick(4, 5);
    word_cases(ctx, "one character per lexical class after a definition", &CLASSES, n, |c, s| c.run("", &[&format!("{{a}}{}", s)]));
    let alpha: Vec<String> = l.g.syms.iter().map(|s| format!("{} ", s.0)).collect();
    let refs: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
    ctx.group("all strings of <= 4 token symbols, alone and after a definition");
    let k = ctx.pick(3, 4);
    let c = fam::words(&refs, k, |s| {
        if ctx.mine() {
            ctx.run("", &[s]);
            ctx.run("", &[&format!("query{{a}} {}", s)]);
        }
    });
    ctx.model(c, c - 1);
}

// ---------------------------------------------------------------- C18

fn gaps(ctx: &mut Ctx, l: &Lang, nest: (usize, usize)) {
    let m = l.m;
    let d = ctx.pick(nest.0, nest.1);
    let each = |c: &mut Ctx, t: &[String]| {
        let base = spaced(t);
        for i in 0..=t.len() {
            for sep in IGNORED {
                c.run("", &[m, &base, &with_gap(t, i, sep)]);
            }
        }
    };
    fam::transitions(ctx, l, d, Names::Uniq, "each ignored text in each gap, the others tight", &mut { each });
    fam::negatives(ctx, l, 1, Names::Uniq, "each ignored text in each gap, the others tight", &mut { each });
    let every = |c: &mut Ctx, t: &[String]| {
        let base = spaced(t);
        for sep in IGNORED {
            c.run("", &[m, &base, &joined(t, sep, true)]);
        }
        c.run("", &[m, &base, &tight(t)]);
    };
    let d = ctx.pick(nest.0 + 1, nest.1 + 1);
    fam::transitions(ctx, l, d, Names::Uniq, "each ignored text in all gaps", &mut { every });
    fam::negatives(ctx, l, ctx.pick(2, 3), Names::Uniq, "each ignored text in all gaps", &mut { every });
    fam::transitions(ctx, l, 2, Names::Uniq, "each literal of its menu, each ignored text in all gaps", &mut |c, t| {
        fam::substitute(t, &mut |_, w| fam::value_menu(w), &mut |v| {
            let base = spaced(v);
            for sep in [",", "\r", "#\n", "\u{feff}", "\t"] {
                c.run("", &[m, &base, &joined(v, sep, true)]);
            }
            c.run("", &[m, &base, &tight(v)]);
        });
    });
    fam::transitions(ctx, l, 1, Names::Uniq, "each name of the menu, ignored text in all gaps", &mut |c, t| {
        fam::substitute(t, &mut |_, w| fam::name_menu(w), &mut |v| {
            let base = spaced(v);
            for sep in [",", "\r", "#\n", "\u{feff}", "\t"] {
                c.run("", &[m, &base, &joined(v, sep, true)]);
            }
            c.run("", &[m, &base, &tight(v)]);
        });
    });
    let n = if m == "q" { ctx.pick(11, 13) } else { ctx.pick(8, 10) };
    fam::all(ctx, l, n, Names::Uniq, "spaces against commas, comments and byte-order marks", &mut |c, t| {
        let base = spaced(t);
        c.run("", &[m, &base, &joined(t, ",#\u{feff}\r\u{feff}", true)]);
        c.run("", &[m, &base, &tight(t)]);
    });
    fam::pumps(ctx, l, 1, &[3, 60], "each ignored text in all gaps", &mut { every });
    fam::rich(ctx, l, &[1, 2, 3], 24, &[0, 2, 7, 33], Names::Uniq, "each ignored text in all gaps", &mut { every });
    fam::rich(ctx, l, &[1], 12, &[], Names::Uniq, "each ignored text in each gap, the others tight", &mut { each });
    ctx.group("1..40, 63..65, 127..129, 255..257, 65535..65537 pieces of ignored text in each of three gaps");
    let doc: &[&str] = if m == "q" { &["query Q($v:T=", "1){a ", "{b}}"] } else { &["type A @d{a:T", "} \"d\" ", "enum E{B}"] };
    let base = doc.concat();
    for p in [" ", "\t", "\n", "\r", "\r\n", ",", "\u{feff}", "#\n", "#c\r", "# é\r\n", "\n\t ", "#x"] {
        for k in (1..40).chain(63..66).chain(127..130).chain(255..258).chain(65535..65538) {
            if ctx.mine() {
                let s = format!("{}\n", p.repeat(k));
                for i in 0..=doc.len() {
                    let mut v: Vec<&str> = doc.to_vec();
                    v.insert(i, &s);
                    ctx.run("", &[m, &base, &v.concat()]);
                }
            }
        }
    }
    ctx.group("all sequences of <= 4 pieces of ignored text in three gaps of a document");
    let doc: &[&str] = if m == "q" { &["query Q($v:T=", "1){a ", "{b}}"] } else { &["type A @d{a:T", "} \"d\" ", "enum E{B}"] };
    let base = doc.concat();
    let pieces = [" ", "\t", "\n", "\r", "\u{feff}", ",", "#", "#\"\n", "#é\r"];
    let n = ctx.pick(4, 5);
    let c = fam::words(&pieces, n, |s| {
        if ctx.mine() {
            // an open comment must end before the next token
            let s = format!("{}\n", s);
            for i in 0..=doc.len() {
                let mut v: Vec<&str> = doc.to_vec();
                v.insert(i, &s);
                ctx.run("", &[m, &base, &v.concat()]);
            }
        }
    });
    ctx.model(c, c - 1);
    ctx.group("all comments of <= 4 letters out of 10, in a gap, before and after the text, at its end without a line end");
    let n = ctx.pick(4, 5);
    let c = fam::words(&["#", " ", "\"", "{", "}", "\\", "é", ",", "\t", "a"], n, |s| {
        if ctx.mine() {
            ctx.run("", &[m, &base, &format!("{}#{}", base, s)]);
            ctx.run("", &[m, &base, &format!("{} \n#{}\n#{}", base, s, s)]);
            ctx.run("", &[m, &base, &format!("#{}\r{}", s, base)]);
            ctx.run("", &[m, &base, &format!("{}#{}\n{}#{}\r\n{}", doc[0], s, doc[1], s, doc[2])]);
        }
    });
    ctx.model(c, c - 1);
    ctx.group("every character except line ends inside a comment; comment at the end of the text");
    for cp in 0..0x110000u32 {
        if let Some(ch) = char::from_u32(cp) {
            if ch == '\n' || ch == '\r' {
                continue;
            }
            if ctx.mine() {
                ctx.run("", &[m, &base, &format!("#{}\n{}#x{}", ch, base, ch)]);
                ctx.run("", &[m, &base, &format!("# {}{{}}\"{}\n{}#{}y {} ]", ch, ch, base, ch, ch)]);
            }
        }
    }
}
fn c18(ctx: &mut Ctx) {
    gaps(ctx, &Lang::q(), (2, 3));
    gaps(ctx, &Lang::s(), (1, 2));
}

// ---------------------------------------------------------------- C19

fn c19(ctx: &mut Ctx) {
    ctx.dear = true;
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        sentences(ctx, &l, "", if m == "q" { (11, 14) } else { (8, 10) }, (3, 4));
        substitutions(ctx, &l, "", ctx.pick(2, 3));
        let d = ctx.pick(2, 3);
        fam::negatives(ctx, &l, d, Names::Uniq, "", &mut |c, t| c.run("", &[m, &spaced(t)]));
        deep_docs(ctx, "", m);
    }
    ctx.group("all pairs of values");
    let v = value_words();
    for a in &v {
        for b in &v {
            ctx.go("", &["q", &format!("query($v:T={}){{a(b:[{} {}]) @d(c:{{k:{}}})}}", konst(a), a, b, b)]);
            ctx.go("", &["s", &format!("\"x\" type A{{a(b:T={}):T @d(c:[{} {}])}}", konst(a), a, b)]);
        }
    }
    let n = ctx.pick(4, 5);
    word_cases(ctx, "inside a quoted string", &["a", "\\", "\"", "n", "u", "0041", "é", "😀", "\n"], n, |c, s| {
        c.run("", &["q", &format!("{{a(b:\"{}\")}}", s)]);
        c.run("", &["s", &format!("\"{}\" type A{{\"{}\" a:T}}", s, s)]);
    });
    word_cases(ctx, "inside a block string", &["a", "\\", "\"", "\n", "\r", " ", "é"], n, |c, s| {
        c.run("", &["q", &format!("{{a(b:\"\"\"{}\"\"\")}}", s)]);
        c.run("", &["s", &format!("\"\"\"{}\"\"\" type A{{\"\"\"{}\"\"\" a:T}}", s, s)]);
    });
    let n = ctx.pick(3, 4);
    word_cases(ctx, "raw text", &CLASSES, n, |c, s| {
        c.run("", &["q", s]);
        c.run("", &["s", s]);
    });
}

// ---------------------------------------------------------------- C20

fn c20(ctx: &mut Ctx) {
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        let d = ctx.pick(if m == "q" { 3 } else { 2 }, if m == "q" { 5 } else { 3 });
        fam::transitions(ctx, &l, d, Names::Uniq, "12 styles", &mut |c, t| c.run("all", &[m, &spaced(t)]));
        sentences(ctx, &l, "few", if m == "q" { (11, 14) } else { (8, 10) }, (2, 4));
        substitutions(ctx, &l, "few", 2);
        wide_styles(ctx, &l);
        deep_docs(ctx, "all", m);
        fam::loop_pairs(ctx, &l, 2, "", &mut |c, t| c.run("few", &[m, &spaced(t)]));
    }
    ctx.group("all pairs of values, 12 styles");
    let v = value_words();
    for a in &v {
        for b in &v {
            ctx.go("all", &["q", &format!("query($v:T={} $w:T={}) @e(f:{}){{a(b:[{} {}] g:{}){{h @d(c:{{k:{} l:{}}})}}}}", konst(a), konst(b), a, a, b, b, b, a)]);
            ctx.go("all", &["s", &format!("\"x\" type A{{\"y\" a(b:T={} \"z\" c:T={}):T @d(c:[{} {}])}} enum E @d(e:{}){{F @d(e:{})}}", konst(a), konst(b), a, b, a, b)]);
        }
    }
    ctx.group("schema definitions with every operation list");
    schema_ops(ctx, "few");
    let n = ctx.pick(5, 7);
    word_cases(ctx, "a style set by steps (digits: indent; m, o: multi-line arguments on, off; c: copied; f: used)", &["0", "2", "3", "7", "m", "o", "c", "f"], n, |c, h| {
        c.run("set", &["q", "query($v:T=[1]){a(b:[1 {c:2}] d:\"e\\nf\"){g}}", h]);
        c.run("set", &["s", "\"d\\ne\" type A @b(c:[1]){f(g:T=2):T}", h]);
    });
    ctx.group("descriptions in every place, block and quoted");
    for dsc in BLOCK_WORDS.iter().chain(STR_WORDS.iter()) {
        for p in evals2::SPLACES {
            ctx.go("all", &["s", &p.replace("\"@\"", dsc)]);
        }
        for p in evals2::QPLACES {
            ctx.go("all", &["q", &p.replace("\"@\"", dsc)]);
        }
    }
}

// ---------------------------------------------------------------- C21

fn c21(ctx: &mut Ctx) {
    let k = hist::CALLS;
    let h = |v: &[(char, usize)]| v.iter().map(|x| format!("{}{}", x.0, x.1)).collect::<Vec<_>>().join(" ");
    ctx.group(&format!("all histories of <= 3 of {} calls on one thread", k));
    let mut states = 1u64;
    for i in 0..k {
        ctx.go("", &[&h(&[('a', i)])]);
        states += 1;
        for j in 0..k {
            ctx.go("", &[&h(&[('a', i), ('a', j)])]);
            states += 1;
            for l in 0..k {
                ctx.go("", &[&h(&[('a', i), ('a', j), ('a', l)])]);
                states += 1;
            }
        }
    }
    ctx.model(states, states - 1);
    ctx.group("all histories of 2 and 3 calls, alternating between two threads in every way");
    let mut states = 0;
    for i in 0..k {
        for j in 0..k {
            ctx.go("", &[&h(&[('a', i), ('b', j)])]);
            states += 2;
            for l in 0..k {
                for p in [['a', 'a', 'b'], ['a', 'b', 'a'], ['a', 'b', 'b']] {
                    ctx.go("", &[&h(&[(p[0], i), (p[1], j), (p[2], l)])]);
                    states += 3;
                }
            }
        }
    }
    ctx.model(states, states);
    ctx.group("all histories of <= 2 calls, and of 3 with the first repeated, every text in one buffer, on one and two threads");
    let mut states = 0;
    for i in 0..k {
        for j in 0..k {
            for t in ['a', 'b'] {
                ctx.go("buf", &[&h(&[('a', i), (t, j)])]);
                ctx.go("buf", &[&h(&[('a', i), (t, j), ('a', i)])]);
                ctx.go("buf", &[&h(&[('a', i), ('a', i), (t, j)])]);
                states += 8;
            }
        }
    }
    ctx.model(states, states);
    ctx.group("one call 300 times, then another, then the first again");
    let mut states = 0;
    for i in 0..k {
        for j in 0..k {
            ctx.go("", &[&format!("a{}*300 a{} a{}", i, j, i)]);
            states += 302;
        }
        ctx.go("", &[&format!("a{}*3000", i)]);
        ctx.go("", &[&format!("a{}*70 b{}*70 a{}*70", i, i, i)]);
    }
    ctx.model(states, states);
    let few: Vec<usize> = if ctx.thorough() { (0..k).collect() } else { vec![0, 1, 2, 4, 5, 8, 12, 16, 24, 28] };
    ctx.group(&format!("all histories of 4 of {} calls on one thread", few.len()));
    let mut states = 0;
    for a in &few {
        for b in &few {
            for c in &few {
                for d in &few {
                    ctx.go("", &[&h(&[('a', *a), ('a', *b), ('a', *c), ('a', *d)])]);
                    states += 1;
                }
            }
        }
    }
    ctx.model(states, states);
    ctx.group("all calls in rotation, forwards and backwards, 40 rounds");
    for i in 0..k {
        let f: Vec<String> = (0..40 * k).map(|x| format!("a{}", (x + i) % k)).collect();
        ctx.go("", &[&f.join(" ")]);
        let b: Vec<String> = (0..40 * k).rev().map(|x| format!("{}{}", if x % 3 == 0 { 'b' } else { 'a' }, (x * 7 + i) % k)).collect();
        ctx.go("", &[&b.join(" ")]);
    }
}

// ---------------------------------------------------------------- C22

fn location_lists(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str)) {
    ctx.group("all lists of <= 3 directive locations, with and without a leading bar");
    let mut acc = vec![];
    lists(&LOCS, 3, &mut acc, &mut |w| {
        if ctx.mine() {
            f(ctx, &w.join("|"));
            f(ctx, &format!("| {}", w.join(" | ")));
        }
    });
    ctx.model(1 + 19 + 361 + 6859, 19 + 361 + 6859);
    ctx.group("lists of 4..300 locations: one repeated, all in turn from each start, forwards and backwards");
    let ns: Vec<usize> = fam::counts(60, 1100).into_iter().filter(|n| *n > 3).collect();
    for i in 0..19 {
        for n in &ns {
            for step in [0usize, 1, 18, 7] {
                if ctx.mine() {
                    let w: Vec<&str> = (0..*n).map(|k| LOCS[(i + k * step) % 19]).collect();
                    f(ctx, &w.join("|"));
                    f(ctx, &format!("| {}", w.join(" | ")));
                    f(ctx, &format!("{}|", w.join("|")));
                }
            }
        }
    }
}
fn near(words: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let letters: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcxyz0 \n\u{130}".chars().collect();
    for w in words {
        let c: Vec<char> = w.chars().collect();
        v.push(w.to_string());
        v.push(w.to_lowercase());
        for i in 0..=c.len() {
            v.push(c[..i].iter().collect());
            v.push(c[i..].iter().collect());
            for l in &letters {
                let mut x = c.clone();
                x.insert(i, *l);
                v.push(x.iter().collect());
                if i < c.len() {
                    let mut x = c.clone();
                    x[i] = *l;
                    v.push(x.iter().collect());
                }
            }
            if i < c.len() {
                let mut x = c.clone();
                x.remove(i);
                v.push(x.iter().collect());
                let mut x = c.clone();
                x[i] = x[i].to_ascii_lowercase();
                v.push(x.iter().collect());
                if i + 1 < c.len() {
                    let mut x = c.clone();
                    x.swap(i, i + 1);
                    v.push(x.iter().collect());
                }
            }
        }
    }
    v
}
fn c22(ctx: &mut Ctx) {
    ctx.group("the 19 names, and every text one edit away");
    let v = near(&LOCS);
    ctx.model(v.len() as u64, v.len() as u64);
    for w in &v {
        ctx.go("name", &[w]);
        ctx.go("list", &[w]);
    }
    ctx.group("pairs of name parts joined, other words");
    let parts: Vec<&str> = LOCS.iter().flat_map(|l| l.split('_')).collect();
    for a in &parts {
        for b in &parts {
            for s in ["_", "", "-", " ", "__"] {
                ctx.go("name", &[&format!("{}{}{}", a, s, b)]);
                ctx.go("list", &[&format!("{}{}{}", a, s, b)]);
            }
        }
        for b in &parts {
            for c in &parts {
                ctx.go("name", &[&format!("{}_{}_{}", a, b, c)]);
            }
        }
    }
    for w in NAME_WORDS {
        ctx.go("name", &[w]);
        ctx.go("list", &[w]);
    }
    let letters: Vec<String> = ('A'..='Z').chain(['_']).map(|c| c.to_string()).collect();
    let letters: Vec<&str> = letters.iter().map(|s| s.as_str()).collect();
    let n = 5;
    word_cases(ctx, "capital letters and _", &letters, n, |c, s| c.run("name", &[s]));
    let n = 3;
    ctx.group(&format!("the beginnings and ends of the names with <= {} letters or a common affix put to them", n));
    let mut heads: Vec<&str> = LOCS.iter().flat_map(|l| (1..=l.len()).map(move |i| &l[..i])).collect();
    heads.sort();
    heads.dedup();
    let mut tails: Vec<&str> = LOCS.iter().flat_map(|l| (0..l.len()).map(move |i| &l[i..])).collect();
    tails.sort();
    tails.dedup();
    let mut affixes = vec![];
    fam::words(&letters, n, |s| affixes.push(s.to_string()));
    for a in [
        "IES", "ES", "ED", "ING", "INGS", "ERS", "ION", "IONS", "TYPE", "_TYPE", "TYPES", "DEF", "_DEF", "_DEFINITION", "_DEFINITIONS", "_DECLARATION", "_FIELD", "_VALUE", "_VALUES", "_OBJECT", "_SET", "_SPREAD", "_FRAGMENT",
        "_EXTENSION", "EXTEND_", "_NODE", "ENUMERATION", "OP", "_OPERATION", "OPERATION_", "_LOCATION", "PARAM", "PARAMETER", "_ARG", "_ARGS", "ARGS", "_VAR", "VAR_", "ROOT_", "_ROOT", "ANY_", "ALL_", "NON_",
    ] {
        affixes.push(a.to_string());
    }
    for a in &affixes {
        for h in &heads {
            ctx.go("name", &[&format!("{}{}", h, a)]);
        }
        for e in &tails {
            ctx.go("name", &[&format!("{}{}", a, e)]);
        }
    }
    location_lists(ctx, &mut |c, s| c.run("list", &[s]));
    ctx.group("lists with one bad item, bar or nothing at each place");
    for x in LOCS {
        for y in LOCS {
            for b in ["", "FIELDS", "field", "|", "&", ",", "1", "\"FIELD\"", "on", "a"] {
                for s in [format!("{}|{}|{}", b, x, y), format!("{}|{}|{}", x, b, y), format!("{}|{}|{}", x, y, b), format!("{} {} {}", x, b, y), format!("|{}|{} {}", x, y, b)] {
                    ctx.go("list", &[&s]);
                }
            }
        }
    }
    if ctx.thorough() {
        ctx.group("all texts two edits away");
        for w in LOCS {
            let v = near(&[w]);
            for x in &v {
                if ctx.mine() {
                    for y in near(&[x]) {
                        ctx.run("name", &[&y]);
                    }
                }
            }
        }
        ctx.group("all lists of 4 directive locations");
        for a in LOCS {
            for b in LOCS {
                for c in LOCS {
                    for d in LOCS {
                        ctx.go("list", &[&format!("{}|{}|{}|{}", a, b, c, d)]);
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C23

fn c23(ctx: &mut Ctx) {
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        let nest = if m == "q" { ctx.pick(2, 3) } else { ctx.pick(1, 2) };
        let gr = Graph::explore(&l.g, nest);
        let mut docs: Vec<String> = vec![];
        crate::gen::transitions(&l.g, &gr, |w| {
            docs.push(spaced(&render(&l.g, w, Names::Uniq)));
        });
        docs.sort();
        docs.dedup();
        if !ctx.thorough() {
            // one sentence per shape once names are equal
            let mut seen = std::collections::HashSet::new();
            docs.retain(|d| {
                let shape: String = d.split(' ').map(|t| if fam::is_name(t) && t.starts_with('n') { "n " } else { t }).collect();
                seen.insert(shape)
            });
        }
        ctx.group(&format!("{}: all pairs of {} sentences (one per transition and shape, bracket depth <= {})", m, docs.len(), nest));
        ctx.model(docs.len() as u64, (docs.len() * docs.len()) as u64);
        for a in &docs {
            for b in &docs {
                ctx.go("", &[m, a, b]);
            }
        }
        ctx.group(&format!("{}: sentences with ignored text, comments and odd ends around them", m));
        let few: Vec<&String> = docs.iter().step_by((docs.len() / 40).max(1)).collect();
        for a in &docs {
            for b in &few {
                if ctx.mine() {
                    for (x, y) in [("#c", ""), ("", "#c\n"), (",", ","), ("\r", "\n"), ("\u{feff}", "\u{feff}"), ("", "\"\" "), ("# \"\"\"", "# \"\"\"\n"), ("\t", "\t")] {
                        ctx.run("", &[m, &format!("{}{}", a, x), &format!("{}{}", y, b)]);
                    }
                }
            }
        }
        ctx.group("many definitions: one sentence 60 times before another");
        for a in &few {
            for b in &few {
                let many = format!("{}\n", a).repeat(60);
                ctx.go("", &[m, &many, b]);
                ctx.go("", &[m, b, &many]);
            }
        }
        fam::rich(ctx, &l, &[1, 2, 3], 24, &[0, 2, 3, 40], Names::Uniq, "before and after plain definitions", &mut |c, t| {
            let s = spaced(t);
            for x in few.iter().take(8) {
                c.run("", &[m, &s, x]);
                c.run("", &[m, x, &s]);
            }
        });
        ctx.group("1..40, 63..65, 127..129, 255..257 definitions before and after others");
        for a in few.iter().step_by(4) {
            for b in few.iter().step_by(4) {
                for k in fam::counts(40, 260) {
                    let many = format!("{}\n", a).repeat(k);
                    ctx.go("", &[m, &many, b]);
                    ctx.go("", &[m, b, &many]);
                }
            }
        }
        fam::pumps(ctx, &l, 1, &[3, 20], "before and after a plain definition", &mut |c, t| {
            let s = spaced(t);
            for x in few.iter().take(8) {
                c.run("", &[m, &s, x]);
                c.run("", &[m, x, &s]);
            }
        });
        ctx.group("documents ending or starting in each value of the menus");
        for v in BLOCK_WORDS.iter().chain(STR_WORDS.iter()).chain(INT_WORDS.iter()) {
            let d = if m == "q" { format!("query Q @d(e:{}){{a(b:{})}}", v, v) } else { format!("scalar A @d(e:{})", v) };
            for x in &few {
                ctx.go("", &[m, &d, x]);
                ctx.go("", &[m, x, &d]);
                if m == "s" && v.starts_with('"') {
                    let e = format!("{} type A{{{} b:T}}", v, v);
                    ctx.go("", &[m, &e, x]);
                    ctx.go("", &[m, x, &e]);
                }
            }
        }
        fam2::kinds(ctx, m, ctx.pick(4, 5), |c, v| {
            for i in 1..v.len() {
                c.run("", &[m, &v[..i].join("\n"), &v[i..].join(" ")]);
            }
        });
        ctx.group("deep documents next to each other");
        let mut deep = vec![];
        deep_values(|k, s| {
            if k == m {
                deep.push(s);
            }
        });
        for a in &deep {
            for b in &deep {
                ctx.go("", &[m, a, b]);
            }
        }
    }
}

// ---------------------------------------------------------------- C24

fn c24(ctx: &mut Ctx) {
    ctx.dear = true;
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        sentences(ctx, &l, "", if m == "q" { (11, 13) } else { (8, 10) }, (3, 4));
        substitutions(ctx, &l, "", 2);
        ctx.group("nested documents");
        deep_values(|k, s| {
            if k == m {
                // the places that nodes are put in add up to three brackets
                if max_depth(&s) <= 46 {
                    ctx.go("", &[m, &s]);
                }
            }
        });
    }
    ctx.group("all pairs of values");
    let v = value_words();
    for a in &v {
        for b in &v {
            ctx.go("", &["q", &format!("query($v:T={}){{a(b:[{} {}]) @d(c:{{k:{} l:{}}})}}", konst(a), a, b, b, a)]);
            ctx.go("", &["s", &format!("\"x\" type A{{a(b:T={} c:[T]={}):T @d(c:[{} {}])}}", konst(a), konst(b), a, b)]);
        }
    }
    ctx.group("integral floats in every place");
    for f in ["1.0", "-0.0", "123e1", "1e3"] {
        for p in &evals2::SPLACES[7..] {
            ctx.go("", &["s", &value_place(p, f)]);
        }
        for p in evals2::QPLACES {
            ctx.go("", &["q", &p.replace("\"@\"", f)]);
        }
    }
    ctx.group("strings in every place");
    for dsc in BLOCK_WORDS.iter().chain(STR_WORDS.iter()) {
        for p in evals2::SPLACES {
            ctx.go("", &["s", &p.replace("\"@\"", dsc)]);
        }
        for p in evals2::QPLACES {
            ctx.go("", &["q", &p.replace("\"@\"", dsc)]);
        }
    }
}

fn max_depth(s: &str) -> usize {
    let (mut d, mut m) = (0usize, 0);
    for c in s.chars() {
        match c {
            '{' | '[' | '(' => {
                d += 1;
                m = m.max(d)
            }
            '}' | ']' | ')' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    m
}

/// the place with the value in it, its descriptions being something else
fn value_place(p: &str, f: &str) -> String {
    p.replace("\"@\" b", "\"d\" b").replace("\"@\" c", "\"d\" c").replace("\"@\" type", "type").replace("\"@\" B", "B").replace("\"@\"", f)
}

// ---------------------------------------------------------------- C25

fn c25(ctx: &mut Ctx) {
    long_wrong(ctx, &mut |c, m, s| c.run("", &[m, s]));
    special_wrong(ctx, &mut |c, m, s| c.run("", &[m, s]));
    wrong(ctx, &Lang::q(), (3, 5));
    wrong(ctx, &Lang::s(), (2, 3));
    schema_ops(ctx, "");
}

// ---------------------------------------------------------------- C26

fn c26(ctx: &mut Ctx) {
    repeats(ctx, "");
}

/// every repeatable part in its place: op, before, part, after
fn repeats(ctx: &mut Ctx, kind: &'static str) {
    let ops: [&'static [&'static str]; 2] = [&["q", "m", "c"], &["s"]];
    for (l, ops) in [Lang::q(), Lang::s()].iter().zip(ops) {
        let d = ctx.pick(1, 2);
        ctx.group(&format!("{} grammar, every loop repeated, bracket depth <= {}, spaced, tight and in lines", l.m, d));
        let gr = Graph::explore(&l.g, d);
        ctx.model_of(&format!("{} {}", l.m, d), gr.confs.len() as u64, gr.transitions);
        for i in 0..gr.confs.len() {
            let mut cycles = gr.cycles(&l.g, i);
            cycles.sort();
            cycles.dedup();
            for c in cycles {
                let (pre, unit, post) = (render(&l.g, &gr.word[i], Names::Uniq), render(&l.g, &c, Names::Uniq), render(&l.g, &l.g.completion(&gr.confs[i]), Names::Uniq));
                for op in ops {
                    for sep in [" ", "\n", "\r\n# c\r\n,"] {
                        let j = |t: &[String]| t.iter().map(|x| format!("{}{}", x, sep)).collect::<String>();
                        ctx.go(kind, &[op, &j(&pre), &j(&unit), &j(&post)]);
                        // left open: an error at the very end
                        ctx.go(kind, &[op, &j(&pre), &j(&unit), ""]);
                    }
                    // with other names and values in each repetition
                    let fresh: Vec<String> = unit.iter().zip(&c).map(|(t, s)| match l.g.class(*s) {
                        Class::Name => format!("{}\u{1}", t),
                        Class::Str => format!("\"{}\u{1}\"", &t[1..t.len() - 1]),
                        Class::Block => format!("\"\"\"{}\u{1}\"\"\"", &t[3..t.len() - 3]),
                        _ => t.clone(),
                    }).collect();
                    if fresh != unit {
                        ctx.go(kind, &[op, &spaced(&pre), &format!(" {} ", spaced(&fresh)), &spaced(&post)]);
                    }
                }
            }
        }
    }
    ctx.group("a part of a token or of ignored text repeated, in places");
    let parts = [
        "a", "_", "9", "0", " ", "\t", "\n", "\r", "\r\n", ",", "\u{feff}", "#\n", "#", "# c\r", "é", "\\", "\"", "\"\"", "\"\"\"", "\"\"\" ", "\\\"\"\"", "\\\\", "\\n", "\\u0041", "\\\"", "\n ", "\n  x", "x\n", "\n\n  ", "\r\n\tx", ".", "...",
        "-", "e", "1e", "{", "}", "(", ")", "[", "]", "{a", "[]", "{} ", "(a:1)", "!", "$", ":", "=", "@", "@a", "|", "&", "\0", ";", "a:1 ", "1 ", "\"\" ", "\"\"\"\"\"\" ", "😀", "a.", "1.5 ", "query{a}", "{a}", "type A ", "\"d\" type A ",
    ];
    let q = [("", ""), ("", "{a}"), ("{", "}"), ("{a(b:\"", "\")}"), ("{a(b:\"\"\"", "\"\"\")}"), ("{a(b:\"\"\"\n x", "\n y\"\"\")}"), ("{a(b:1", ")}"), ("{a(b:1.", ")}"), ("{a(b:[", "])}"), ("{a(b:{", "})}"), ("{a", "}"), ("{a #", "\n}"), ("query($v:T=[", "]){a}"), ("{a}", ""), ("{a} ", "{b}")];
    for (pre, post) in q {
        for p in parts {
            for op in ["q", "m", "c"] {
                ctx.go(kind, &[op, pre, p, post]);
            }
        }
    }
    ctx.group("each ASCII character repeated in a string, a block string, a comment and at the start of comments and lines");
    for c in 0..128u8 {
        let c = c as char;
        for (pre, part, post) in [
            ("{a(b:\"", format!("{}", c), "\")}"), ("{a(b:\"", format!("\\{}", c), "\")}"), ("{a(b:\"\"\"", format!("{}", c), "\"\"\")}"), ("{a(b:\"\"\"", format!("\n{}x", c), "\"\"\")}"), ("{a(b:\"\"\"", format!("\\{}", c), "\"\"\")}"), ("{a #", format!("{}", c), "\nb}"),
            ("{a ", format!("#{}\n", c), "b}"), ("{a ", format!("#{} x\r\n", c), "b}"), ("{", format!("a #{}\n", c), "}"), ("{", format!("a{}b ", c), "}"),
        ] {
            ctx.go(kind, &["q", pre, &part, post]);
        }
    }
    ctx.group("deeply nested groups repeated");
    for k in [10, 20, 30, 40, 46] {
        let n = |o: &str, x: &str, c: &str| format!("{}{}{} ", o.repeat(k), x, c.repeat(k));
        let q = [
            ("{a(b:[", n("[", "1", "]"), "])}"), ("{a(b:[", n("{k:", "1", "}"), "])}"), ("{a(b:[", n("[[]{}", "$v", "{k:[]}]"), "])}"), ("{", n("a{", "b", "}"), "}"), ("{", n("...{", "b", "}"), "}"),
            ("{", n("...on T{", "b", "}"), "}"), ("{", n("a:b(c:1)@d(e:[1]){f{g}", "b", "}"), "}"), ("query(", format!("$v:{}", n("[", "T", "]!")), "){a}"), ("query(", format!("$v:T={}", n("[{k:", "1", "}]")), "){a}"),
            ("", n("{a", "{b}", "}"), ""), ("", n("{a", "{b", "}"), ""), ("{a(b:[", n("[", "", ""), ""), ("{", n("a{", "", ""), ""),
        ];
        for (pre, unit, post) in q {
            for op in ["q", "m", "c"] {
                ctx.go(kind, &[op, pre, &unit, post]);
            }
        }
        let s = [
            ("type A{", format!("a:{}", n("[", "T", "]!")), "}"), ("type A{", format!("a(b:T={}):T ", n("[", "1", "]")), "}"), ("type A{a(", format!("b:{}", n("[", "T", "]")), "):T}"), ("", format!("scalar A @d(b:{})", n("{k:", "1", "}")), ""),
            ("enum A{", format!("B @d(e:{})", n("[", "{}", "]")), "}"), ("input A{", format!("b:T={}", n("{k:", "[]", "}")), "}"), ("type A{", format!("a:{}", n("[", "T", "")), "}"),
        ];
        for (pre, unit, post) in s {
            ctx.go(kind, &["s", pre, &unit, post]);
        }
    }
    ctx.group("a part of a token or of ignored text repeated, in schemas");
    let s = [("", ""), ("", "type A"), ("\"", "\" type A"), ("\"\"\"", "\"\"\" type A"), ("\"\"\"\n  x", "\n y\"\"\" type A"), ("type A{a:T", "}"), ("type A ", ""), ("type A{", "}"), ("enum A{", "}"), ("union A=B", ""), ("type A implements B", "")];
    for (pre, post) in s {
        for p in parts {
            ctx.go(kind, &["s", pre, p, post]);
        }
    }
}

// ---------------------------------------------------------------- C27

/// texts that differ from the tokens' in one place, most of them without
/// moving anything else
fn apart(t: &[String], f: &mut dyn FnMut(&str)) {
    let mut v = t.to_vec();
    for i in 0..t.len() {
        let w = &t[i];
        let b = w.as_bytes();
        let mut put = |v: &mut Vec<String>, x: String| {
            v[i] = x;
            f(&spaced(v));
        };
        put(&mut v, " ".repeat(w.len()));
        put(&mut v, format!(" {}", w));
        if fam::is_name(w) {
            for c in ["m", "N", "_"] {
                put(&mut v, format!("{}{}", c, &w[1..]));
            }
            put(&mut v, format!("{}_", &w[..w.len() - 1]));
            for k in ["true", "null", "false", "query", "a", "on", "mutation"].iter().chain(&LOCS) {
                if k.len() <= w.len() {
                    put(&mut v, format!("{:1$}", k, w.len()));
                }
            }
        } else if matches!(b[0], b'-' | b'0'..=b'9') {
            for k in ["7", "0", "-1", "7.5", "1e1", "\"\"", "[]", "{}", "a"] {
                if k.len() <= w.len() {
                    put(&mut v, format!("{:1$}", k, w.len()));
                }
            }
            put(&mut v, format!("{}8", &w[..w.len() - 1]));
        } else if b[0] == b'"' {
            put(&mut v, w.replace('s', "t").replace('b', "c"));
            put(&mut v, w.replace('s', " ").replace('b', " "));
            put(&mut v, format!("{:1$}", "\"\"", w.len()));
            put(&mut v, format!("{:1$}", "n", w.len()));
            if w.len() >= 7 {
                put(&mut v, format!("\"{}\"", &" ".repeat(w.len() - 2)));
                put(&mut v, format!("\"\"\"{}\"\"\"", &"x".repeat(w.len() - 6)));
            }
        }
        v[i] = w.clone();
        for n in 2..=9 {
            if i + n <= t.len() {
                for k in i..i + n {
                    v[k] = " ".repeat(t[k].len());
                }
                f(&spaced(&v));
                v[i..i + n].clone_from_slice(&t[i..i + n]);
            }
        }
        if i + 1 < t.len() && t[i].len() == t[i + 1].len() {
            v.swap(i, i + 1);
            f(&spaced(&v));
            v.swap(i, i + 1);
        }
    }
}
fn c27(ctx: &mut Ctx) {
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        let go = |c: &mut Ctx, t: &[String]| {
            let s = spaced(t);
            c.run("", &[m, &s, &s]);
            apart(t, &mut |x| c.run("", &[m, &s, x]));
        };
        fam::transitions(ctx, &l, ctx.pick(2, 3), Names::Uniq, "with each text that differs in one place", &mut { go });
        fam::pumps(ctx, &l, 2, &[2], "with each text that differs in one place", &mut { go });
        fam::rich(ctx, &l, &[1, 2, 3], ctx.pick(6, 24), &[], Names::Uniq, "with each text that differs in one place", &mut { go });
        fam::pumps(ctx, &l, 1, ctx.pick(&[9], &[9, 20, 40]), "with each text that differs in one place", &mut { go });
        let n = ctx.pick(if m == "q" { 10 } else { 7 }, if m == "q" { 12 } else { 9 });
        fam::all(ctx, &l, n, Names::Uniq, "with each text that differs in one place", &mut { go });
    }
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        fam::transitions(ctx, &l, ctx.pick(1, 2), Names::Uniq, "each name and value replaced by each word of the menus, with the original and with itself", &mut |c, t| {
            let s = spaced(t);
            let f = &mut |v: &[String]| {
                let x = spaced(v);
                c.run("", &[m, &x, &x]);
                c.run("", &[m, &s, &x]);
            };
            fam::substitute(t, &mut |_, w| fam::value_menu(w), f);
            fam::substitute(t, &mut |_, w| fam::name_menu(w), f);
        });
    }
    ctx.group("pairs of values");
    let mut v = value_words();
    v.extend(&INT_WORDS[..]);
    v.extend(&FLOAT_WORDS[..]);
    v.extend(&STR_WORDS[..]);
    v.extend(&BLOCK_WORDS[..]);
    v.extend([
        "1.0000000000000002", "1.0", "1", "0.1000000000000000055511151231257828", "0.10000000000000002", "1e-300", "1.0000000000000001e-300", "1.0000000000000002e-300", "5e-324", "1e-323", "0.0", "-0.0", "16777216.0",
        "16777217.0", "1e300", "1.0000000000000002e300", "1e400", "-1e400", "9007199254740992", "9007199254740993.0", "\"A\"", "\"a\"", "\"a \"", "\" a\"", "\"\\r\\n\"", "\"\\n\"", "\"\\u00e9\"", "\"e\\u0301\"",
        "\"ss\"", "\"\u{df}\"", "[1 2]", "[2 1]", "[1 2 3]", "[]", "{a:1}", "{a:1 b:2}", "{A:1}", "{a:2}", "{b:1}", "e", "E", "[1 [2]]", "[[1] 2]", "[[1 2]]", "$X", "$x", "x",
    ]);
    v.sort();
    v.dedup();
    for a in &v {
        for b in &v {
            let w = a.len().max(b.len());
            let (x, y) = (format!("{:1$}", a, w), format!("{:1$}", b, w));
            ctx.go("", &["q", &format!("{{a(b:{})}}", x), &format!("{{a(b:{})}}", y)]);
            ctx.go("", &["q", &format!("{{a @d(b:[{{k:{}}}])}}", x), &format!("{{a @d(b:[{{k:{}}}])}}", y)]);
        }
    }
    ctx.group("pairs of styles");
    let n = ["0", "1", "2", "3", "4", "5", "7", "8", "9", "16", "17", "40", "255", "256", "257", "258", "1000", "65535", "65536", "65538", "2147483647", "2147483648", "2147483650", "4294967294", "4294967295"];
    for a in n {
        for b in n {
            for k in ["00", "01", "10", "11"] {
                ctx.go("style", &[a, &k[..1], b, &k[1..]]);
            }
        }
    }
    ctx.group("pairs of directive locations");
    for a in LOCS {
        for b in LOCS {
            ctx.go("location", &[a, b]);
        }
    }
    ctx.group("pairs of positions");
    let p = ["0", "1", "2", "9", "10", "11", "99", "100", "101", "255", "256", "257", "65535", "65536", "4294967296", "18446744073709551615"];
    for a in p {
        for b in p {
            for c in p {
                for d in p {
                    ctx.go("pos", &[a, b, c, d]);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C28

fn c28(ctx: &mut Ctx) {
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        let go = |c: &mut Ctx, t: &[String]| {
            let s = spaced(t);
            for x in [tight(t), joined(t, "\n", true), joined(t, "\r\n\t#c\r,", true), joined(t, "\n\n", false)] {
                c.run("text", &[m, &s, &x]);
            }
        };
        let one = |c: &mut Ctx, t: &[String]| {
            // a line end or a blank line in one place alone
            let s = spaced(t);
            for i in 1..t.len() {
                c.run("text", &[m, &s, &format!("{}\n{}", spaced(&t[..i]), spaced(&t[i..]))]);
                c.run("text", &[m, &s, &format!("{} #c\n\n\n{}", spaced(&t[..i]), spaced(&t[i..]))]);
            }
        };
        let d = ctx.pick(if m == "q" { 3 } else { 2 }, if m == "q" { 5 } else { 3 });
        fam::transitions(ctx, &l, d, Names::Uniq, "4 layouts, 5 sets of positions", &mut { go });
        fam::pumps(ctx, &l, 2, &[2, 3], "4 layouts, 5 sets of positions", &mut { go });
        fam::transitions(ctx, &l, ctx.pick(1, 2), Names::Uniq, "a line end in each place", &mut { one });
        fam::loop_pairs(ctx, &l, 1, "4 layouts", &mut { go });
        full_sentences(ctx, &l, &mut { go });
        fam::rich(ctx, &l, &[1, 2, 3], 12, &[], Names::Uniq, "a line end in each place", &mut { one });
        let n = ctx.pick(if m == "q" { 10 } else { 7 }, if m == "q" { 13 } else { 9 });
        fam::all(ctx, &l, n, Names::Uniq, "4 layouts", &mut { go });
    }
    let kinds: [(&str, &[(&str, &str)]); 2] = [("s", &build::SKINDS), ("q", &build::QKINDS)];
    for (m, ks) in kinds {
        let n = ctx.pick(4, 6);
        ctx.group(&format!("{} definitions made by the constructors, all sequences of <= {} steps", if m == "s" { "schema" } else { "query" }, n));
        let mut states = 0;
        for (k, steps) in ks {
            let alpha: Vec<String> = steps.chars().map(|c| c.to_string()).collect();
            let refs: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
            states += fam::words(&refs, n, |w| ctx.go(if m == "s" { "s" } else { "q" }, &[k, w]));
        }
        ctx.model(states, states - ks.len() as u64);
        ctx.group(&format!("pairs of {} definitions made by the constructors, all sequences of <= 2 steps", if m == "s" { "schema" } else { "query" }));
        let mut all = vec![];
        for (k, steps) in ks {
            let alpha: Vec<String> = steps.chars().map(|c| c.to_string()).collect();
            let refs: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
            fam::words(&refs, 2, |w| all.push((*k, w.to_string())));
        }
        for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate() {
                if ctx.thorough() || (i * 31 + j) % 5 == 0 || a.1.len() + b.1.len() <= 2 {
                    ctx.go(if m == "s" { "s" } else { "q" }, &[a.0, &a.1, b.0, &b.1]);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C29

fn c29(ctx: &mut Ctx) {
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        let go = |c: &mut Ctx, t: &[String]| c.run("", &[m, &spaced(t)]);
        let d = ctx.pick(if m == "q" { 3 } else { 2 }, if m == "q" { 5 } else { 3 });
        fam::transitions(ctx, &l, d, Names::Uniq, "", &mut { go });
        fam::transitions(ctx, &l, 1, Names::Uniq, "with each ignored text in all gaps", &mut |c, t| {
            for sep in IGNORED {
                c.run("", &[m, &joined(t, sep, true)]);
            }
        });
        substitutions(ctx, &l, "", 1);
        fam::negatives(ctx, &l, d, Names::Uniq, "", &mut { go });
        fam::transitions(ctx, &l, 1, Names::Uniq, "30 malformed lexemes inserted everywhere", &mut |c, t| {
            let mut v = t.to_vec();
            for i in 0..=t.len() {
                for b in BROKEN {
                    v.insert(i, b.to_string());
                    c.run("", &[m, &spaced(&v)]);
                    v.remove(i);
                }
            }
        });
        fam::pumps(ctx, &l, 1, &[2, 3, 9, 60], "", &mut { go });
        fam::rich(ctx, &l, &[1, 2, 3], 24, &[0, 2, 7, 40], Names::Uniq, "", &mut { go });
        fam::rich(ctx, &l, &[1, 2], 12, &[2, 5], Names::Mod(2), "two names", &mut { go });
        fam::two_names(ctx, &l, 1, &[2, 3], 6, "", &mut { go });
        let n = ctx.pick(if m == "q" { 10 } else { 7 }, if m == "q" { 13 } else { 9 });
        fam::all(ctx, &l, n, Names::Uniq, "", &mut { go });
        schema_ops_for(ctx, m);
        deep_docs(ctx, "", m);
    }
    ctx.group("pairs of values");
    let v = value_words();
    for a in &v {
        for b in &v {
            ctx.go("", &["q", &format!("query($v:T={}){{a(b:[{} {}]) @d(c:{{k:{}}})}}", konst(a), a, b, b)]);
            ctx.go("", &["s", &format!("\"x\" type A{{a(b:T={}):T @d(c:[{} {}])}}", konst(a), a, b)]);
        }
    }
    let n = ctx.pick(3, 4);
    word_cases(ctx, "raw text", &CLASSES, n, |c, s| {
        c.run("", &["q", s]);
        c.run("", &["s", s]);
    });
    let n = ctx.pick(3, 4);
    word_cases(ctx, "inside a string", &IN_STR, n, |c, s| {
        c.run("", &["q", &format!("{{a(b:\"{}\")}}", s)]);
        c.run("", &["s", &format!("\"{}\" scalar A", s)]);
    });
    word_cases(ctx, "inside a block string", &IN_BLOCK, n, |c, s| {
        c.run("", &["q", &format!("{{a(b:\"\"\"{}\"\"\")}}", s)]);
        c.run("", &["s", &format!("\"\"\"{}\"\"\" scalar A", s)]);
    });
    repeats(ctx, "grow");
    // texts that are all different: what is kept for one is of no use to another
    for l in [Lang::q(), Lang::s()] {
        let m = l.m;
        fam::transitions(ctx, &l, ctx.pick(1, 2), Names::Uniq, "96 times with other names and values each time", &mut |c, t| c.run("fresh", &[m, &spaced(t)]));
        fam::negatives(ctx, &l, 1, Names::Uniq, "96 times with other names and values each time", &mut |c, t| c.run("fresh", &[m, &spaced(t)]));
        fam::rich(ctx, &l, &[1, 2], ctx.pick(12, 24), &[], Names::Uniq, "96 times with other names and values each time", &mut |c, t| c.run("fresh", &[m, &spaced(t)]));
    }
}
fn schema_ops_for(ctx: &mut Ctx, m: &str) {
    if m == "s" {
        schema_ops(ctx, "");
    }
}

// ---------------------------------------------------------------- C30

fn c30(ctx: &mut Ctx) {
    for l in [Lang::q(), Lang::s()] {
        let ms: &[&str] = if l.m == "q" { &["q", "c"] } else { &["s"] };
        let run = |c: &mut Ctx, s: &str, rest: &str| {
            for m in ms {
                c.run("", &[*m, s, rest]);
            }
        };
        // a wrong token at every place, the rest of the sentence among what follows
        let every = |c: &mut Ctx, t: &[String]| {
            for i in 0..=t.len() {
                for s in &l.g.syms {
                    let mut v = t[..i].to_vec();
                    v.push(s.0.to_string());
                    let rest = spaced(&t[i.min(t.len())..]);
                    let joined_ = joined(&v, "\n", false);
                    run(c, &spaced(&v), &rest);
                    if i % 4 == 0 {
                        run(c, &joined_, &rest);
                    }
                }
            }
        };
        let d = ctx.pick(if l.m == "q" { 3 } else { 2 }, if l.m == "q" { 5 } else { 3 });
        fam::negatives(ctx, &l, d, Names::Uniq, "followed by 50 texts", &mut |c, t| {
            run(c, &spaced(t), "");
            run(c, &tight(t), "");
        });
        fam::transitions(ctx, &l, 1, Names::Uniq, "each symbol at each place, followed by 50 texts and the rest", &mut { every });
        fam::rich(ctx, &l, &[1, 2, 3], ctx.pick(2, 12), &[], Names::Uniq, "each symbol at each place, followed by 50 texts and the rest", &mut { every });
        fam::pumps(ctx, &l, 1, &[2, 9, 60], "each symbol at the end, followed by 50 texts", &mut |c, t| {
            for s in &l.g.syms {
                let mut v = t[..t.len() - 1].to_vec();
                v.push(s.0.to_string());
                run(c, &spaced(&v), t.last().unwrap());
            }
        });
        let alpha: Vec<String> = l.g.syms.iter().map(|s| format!("{} ", s.0)).collect();
        let refs: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
        let n = ctx.pick(3, 4);
        ctx.group(&format!("all strings of <= {} of the {} token symbols, followed by 50 texts", n, refs.len()));
        let c = fam::words(&refs, n, |s| {
            if ctx.mine() {
                run(ctx, s, "");
            }
        });
        ctx.model(c, c - 1);
    }
}
