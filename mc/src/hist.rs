//! C21: results do not depend on what was processed before.
//!
//! A menu of calls; every history up to a bound is run in a process of its own
//! (forked before the library was ever called) and each result is compared with
//! the result of the same call alone in a fresh process.

use crate::dump::{self, Opt};
use crate::engine::V;
use crate::imp;
use graphql_parser::query as q;
use graphql_parser::schema as s;
use std::borrow::Cow;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc;
use std::sync::OnceLock;

fn show<T: std::fmt::Debug>(o: imp::Out<T>) -> String {
    format!("{:?}", o)
}

/// a buffer whose address never changes: texts of equal address and length
static mut BUF: [u8; 8192] = [0; 8192];
static IN_BUF: AtomicBool = AtomicBool::new(false);

/// the text where it is, or in the one buffer
fn at(t: &str) -> &str {
    if !IN_BUF.load(Ordering::SeqCst) {
        return t;
    }
    unsafe {
        let p = std::ptr::addr_of_mut!(BUF) as *mut u8;
        std::ptr::copy_nonoverlapping(t.as_ptr(), p, t.len());
        std::str::from_utf8(std::slice::from_raw_parts(p, t.len())).unwrap()
    }
}

fn deep(n: usize) -> String {
    format!("{}a{}", "{a".repeat(n - 1) + "{", "}".repeat(n))
}

/// `x` in the middle of a long list
fn mid(x: &str, after: &str) -> String {
    let side = |n: &str| format!("{}{}", n, after).repeat(20);
    format!("{{{}{}{}}}", side("aaaa"), x, side("zzzz"))
}

const O: Opt = Opt { k2: false };

pub const CALLS: usize = 46;

pub fn call(i: usize) -> String {
    let qd = |t: &str| show(imp::qdump(at(t)));
    let sd = |t: &str| show(imp::sdump(at(t)));
    match i {
        0 => qd("{a}"),
        1 => qd("{"),
        2 => sd("type A{a:T}"),
        3 => qd("{b(c:[\"x\",1])}"),
        4 => qd(&deep(51)),
        5 => qd(&deep(50)),
        6 => sd("extend type A"),
        7 => show(imp::minify(at("{a #c\n b}"))),
        8 => show(imp::minify(at("{a ; }"))),
        9 => show(imp::map(imp::consume(at("query{a} ;")), |x| (dump::qdef(&x.0, O), x.1.to_string()))),
        10 => show(imp::map(imp::consume(at("x")), |x| (dump::qdef(&x.0, O), x.1.to_string()))),
        11 => format!("{:?}", imp::map(imp::query(at("{a(b:[1,{c:\"x\\ny\"}]){d}}")), |d| imp::qformat(&d, &imp::style(4, true)))),
        12 => format!("{:?}", imp::map(imp::query(at("{a(b:[1,{c:\"x\\ny\"}]){d}}")), |d| imp::show(&d))),
        13 => format!("{:?}", imp::map(imp::schema(at("\"x\\ny\" type A{\"d\" a(b:T=1):T}")), |d| imp::sformat(&d, &imp::style(0, false)))),
        14 => show(imp::map(imp::query(at("{a(b:1)}")), |d| dump::qdoc(&d, O))),
        15 => show(imp::map(imp::query(at("{c(d:2)}")), |d| dump::qdoc(&d, O))),
        16 => show(imp::map(imp::query(at("{c(d:2]}")), |d| dump::qdoc(&d, O))),
        17 => show(imp::map(imp::wrap(|| q::parse_query::<String>(at("{a(b:$c)}"))), |d| dump::qdoc(&d, O))),
        18 => show(imp::map(imp::wrap(|| q::parse_query::<Cow<str>>(at("{a(b:$d)}"))), |d| dump::qdoc(&d, O))),
        19 => show(imp::map(imp::wrap(|| s::parse_schema::<String>(at("scalar A @b(c:\"\"\"x\n  y\"\"\")"))), |d| dump::sdoc(&d, O))),
        20 => qd("{a(b:\"\\q\")}"),
        21 => qd("{a(b:99999999999999999999)}"),
        22 => sd("schema{query:A query:B}"),
        23 => show(imp::minify(at(&"(".repeat(60)))),
        24 => show(imp::minify(at("}}}]]]"))),
        25 => sd("directive @a on FIELD|QUERY"),
        26 => sd("directive @a on FIELT"),
        27 => format!("{:?}", imp::map(imp::query(at("{a(b:[1,{c:\"x\\ny\"}]){d}}")), |d| imp::qformat(&d, &imp::style(2, false)))),
        28 => show(imp::map(imp::consume(at("{a}{b}")), |x| (dump::qdef(&x.0, O), x.1.to_string()))),
        29 => show(imp::map(imp::schema(at("enum A{B}")), |d| dump::sdoc(&d, O))),
        // texts of one shape with other contents
        30 => qd("{a(b:\"pq\" c:\"\"\"rs\"\"\" d:1.5 e:12)}"),
        31 => qd("{z(y:\"tu\" x:\"\"\"vw\"\"\" w:2.5 v:34)}"),
        32 => qd("{z(y:\"\\q\" x:\"\"\"vw\"\"\" w:2.5 v:34)}"),
        33 => sd("\"pq\" type A{b(c:T=\"rs\"):U}enum C{D}union E=F|G"),
        34 => sd("\"tu\" type Z{y(x:W=\"vw\"):V}enum S{R}union Q=P|O"),
        35 => show(imp::minify(at("{a(b:\"pq\" c:\"\"\"rs\"\"\" d:1.5 e:12)}"))),
        36 => show(imp::minify(at("{z(y:\"tu\" x:\"\"\"vw\"\"\" w:2.5 v:34)}"))),
        37 => sd("directive @a(b:T) repeatable on OBJECT"),
        // documents that live side by side
        38 => {
            let (a, b) = (imp::query("query A($b:C=1){d(e:\"f\\ng\")}"), imp::schema("\"x\\ny\" type A{\"d\" a(b:T=1):T}"));
            format!("{:?}", imp::map(a, |a| imp::map(b, |b| (imp::show(&a), imp::sformat(&b, &imp::style(3, true)), imp::qformat(&a, &imp::style(5, true)), imp::show(&b), imp::show(&a)))))
        }
        39 => {
            let st = imp::style(3, true);
            let a = imp::map(imp::query("{a(b:[1 2]){c}}"), |d| imp::qformat(&d, &st));
            let b = imp::map(imp::query("{z(y:[3 4]){x}}"), |d| imp::qformat(&d, &st));
            let c = imp::map(imp::schema("type A{a(b:T=[1 2]):T}"), |d| imp::sformat(&d, &st));
            format!("{:?} {:?} {:?}", a, b, c)
        }
        // long texts of one length that differ in the middle alone
        40 => qd(&mid("b ", " ")),
        41 => qd(&mid("c ", " ")),
        42 => show(imp::minify(at(&mid("b ", " ")))),
        43 => show(imp::minify(at(&mid("c ", " ")))),
        44 => sd(&format!("type A{}", mid("b:T ", ":T "))),
        45 => sd(&format!("type A{}", mid("c:T ", ":T "))),
        _ => panic!("call {}", i),
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}

/// runs f in a forked process; Err if it died
fn forked(f: impl FnOnce() -> String) -> Result<String, String> {
    unsafe {
        let mut p = [0i32; 2];
        assert!(pipe(p.as_mut_ptr()) == 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(p[0]);
            alarm(60);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "!engine".into());
            let b = r.as_bytes();
            let mut o = 0;
            while o < b.len() {
                let n = write(p[1], b[o..].as_ptr().cast(), b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            _exit(0);
        }
        close(p[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = read(p[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(p[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st != 0 {
            return Err(format!("the process died (status {})", st));
        }
        let s = String::from_utf8_lossy(&out).into_owned();
        assert!(s != "!engine", "history runner failed");
        Ok(s)
    }
}

static BASE: OnceLock<Vec<String>> = OnceLock::new();

fn baseline() -> &'static Vec<String> {
    BASE.get_or_init(|| (0..CALLS).map(|i| forked(|| call(i)).unwrap_or_else(|e| format!("!{}", e))).collect())
}

/// history: list of thread letter + call number, e.g. "a3 b4 a3"; `*k` repeats
pub fn eval(kind: &str, a: &[&str]) -> V {
    let base = baseline();
    let mut steps: Vec<(u8, usize)> = vec![];
    for w in a[0].split_whitespace() {
        let (w, k) = match w.split_once('*') {
            Some((w, k)) => (w, k.parse().unwrap()),
            None => (w, 1),
        };
        for _ in 0..k {
            steps.push((w.as_bytes()[0], w[1..].parse().unwrap()));
        }
    }
    let r = forked(|| {
        IN_BUF.store(kind == "buf", Ordering::SeqCst);
        let threads = steps.iter().any(|s| s.0 != b'a');
        let check = |n: usize, i: usize, got: String| -> Option<String> {
            if got == base[i] {
                None
            } else {
                Some(format!("step {} (call {}): alone in a fresh process: {}\nin this history: {}", n + 1, i, base[i], got))
            }
        };
        if !threads {
            for (n, (_, i)) in steps.iter().enumerate() {
                if let Some(e) = check(n, *i, call(*i)) {
                    return e;
                }
            }
            return String::new();
        }
        // two threads, one call at a time
        std::thread::scope(|sc| {
            let mut tx = vec![];
            let (done_tx, done) = mpsc::channel::<String>();
            for _ in 0..2 {
                let (t, r) = mpsc::channel::<usize>();
                let d = done_tx.clone();
                sc.spawn(move || {
                    for i in r {
                        let _ = d.send(call(i));
                    }
                });
                tx.push(t);
            }
            for (n, (t, i)) in steps.iter().enumerate() {
                tx[(t - b'a') as usize].send(*i).unwrap();
                let got = done.recv().unwrap_or_else(|_| "thread died".into());
                if let Some(e) = check(n, *i, got) {
                    return e;
                }
            }
            String::new()
        })
    });
    match r {
        Ok(s) if s.is_empty() => V::Ok(steps.len().min(300) as u32),
        Ok(s) => V::Bad(s),
        Err(e) => V::Bad(e),
    }
}
