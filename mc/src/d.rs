//! Textual form of an AST, shared by the dump of real ASTs and the reference
//! parser (only the notation is shared, not how it is computed).
//! Positions stand between \x01 and \x02, so that they can be stripped.

use std::fmt::Write;

pub type P = (u32, u32);

pub fn pos(p: P) -> String {
    format!("\x01{}:{}\x02", p.0, p.1)
}

pub fn strip(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find('\x01') {
        out.push_str(&rest[..i]);
        let j = rest[i..].find('\x02').unwrap() + i;
        rest = &rest[j + 1..];
    }
    out.push_str(rest);
    out
}

pub fn opt(s: Option<&str>) -> String {
    match s {
        None => "-".to_string(),
        Some(s) => format!("{:?}", s),
    }
}

pub fn list(items: &[String]) -> String {
    let mut s = String::from("[");
    for (i, x) in items.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(x);
    }
    s.push(']');
    s
}

pub fn names<'a>(items: impl Iterator<Item = &'a str>) -> String {
    let v: Vec<String> = items.map(|x| format!("{:?}", x)).collect();
    list(&v)
}

// values
pub fn int(i: i64) -> String {
    format!("Int({})", i)
}
pub fn float(f: f64) -> String {
    format!("Float({:016x})", f.to_bits())
}
pub fn string(s: &str) -> String {
    format!("Str({:?})", s)
}
pub fn boolean(b: bool) -> String {
    format!("Bool({})", b)
}
pub fn null() -> String {
    "Null".into()
}
pub fn enum_(s: &str) -> String {
    format!("Enum({})", s)
}
pub fn var(s: &str) -> String {
    format!("Var({})", s)
}
pub fn lst(v: &[String]) -> String {
    format!("List{}", list(v))
}
pub fn obj(v: &[(String, String)]) -> String {
    let mut s = String::from("Obj{");
    for (k, x) in v {
        let _ = write!(s, "{}={};", k, x);
    }
    s.push('}');
    s
}
pub fn args(v: &[(String, String)]) -> String {
    let mut s = String::from("(");
    for (k, x) in v {
        let _ = write!(s, "{}={};", k, x);
    }
    s.push(')');
    s
}
pub fn directive(p: P, name: &str, a: &str) -> String {
    format!("@{}{}{}", pos(p), name, a)
}
// query
pub fn selset(a: P, b: P, items: &[String]) -> String {
    format!("{{{}{}{}}}", pos(a), pos(b), list(items))
}
pub fn field(p: P, alias: Option<&str>, name: &str, a: &str, d: &str, sel: &str) -> String {
    format!("F{}alias={} {:?} args={} dirs={} sel={}", pos(p), opt(alias), name, a, d, sel)
}
pub fn spread(p: P, name: &str, d: &str) -> String {
    format!("Spread{}{:?} dirs={}", pos(p), name, d)
}
pub fn inline(p: P, cond: Option<&str>, d: &str, sel: &str) -> String {
    format!("Inline{}on={} dirs={} sel={}", pos(p), opt(cond), d, sel)
}
pub fn vardef(p: P, name: &str, ty: &str, def: Option<&str>) -> String {
    format!("V{}{:?}:{}={}", pos(p), name, ty, def.unwrap_or("-"))
}
pub fn op(kind: &str, p: P, name: Option<&str>, vars: &str, d: &str, sel: &str) -> String {
    format!("Op({} {}{} vars={} dirs={} sel={})", kind, pos(p), opt(name), vars, d, sel)
}
pub fn anon(sel: &str) -> String {
    format!("Op(set sel={})", sel)
}
pub fn fragment(p: P, name: &str, cond: &str, d: &str, sel: &str) -> String {
    format!("Frag({}{:?} on={:?} dirs={} sel={})", pos(p), name, cond, d, sel)
}
// schema
pub fn schemadef(p: P, d: &str, q: Option<&str>, m: Option<&str>, s: Option<&str>) -> String {
    format!("Schema({}dirs={} q={} m={} s={})", pos(p), d, opt(q), opt(m), opt(s))
}
/// type definitions and extensions; `parts` are the kind's own members
pub fn typedef(kind: &str, ext: bool, p: P, desc: Option<Option<&str>>, name: &str, parts: &str) -> String {
    format!(
        "{}{}({}desc={} {:?} {})",
        if ext { "Extend" } else { "Def" },
        kind,
        pos(p),
        match desc {
            None => "".to_string(),
            Some(d) => opt(d),
        },
        name,
        parts
    )
}
pub fn sfield(p: P, desc: Option<&str>, name: &str, a: &str, ty: &str, d: &str) -> String {
    format!("SF{}desc={} {:?} args={} :{} dirs={}", pos(p), opt(desc), name, a, ty, d)
}
pub fn input(p: P, desc: Option<&str>, name: &str, ty: &str, def: Option<&str>, d: &str) -> String {
    format!("IV{}desc={} {:?}:{}={} dirs={}", pos(p), opt(desc), name, ty, def.unwrap_or("-"), d)
}
pub fn enumval(p: P, desc: Option<&str>, name: &str, d: &str) -> String {
    format!("EV{}desc={} {:?} dirs={}", pos(p), opt(desc), name, d)
}
pub fn dirdef(p: P, desc: Option<&str>, name: &str, a: &str, rep: bool, locs: &str) -> String {
    format!("DirDef({}desc={} {:?} args={} rep={} on={})", pos(p), opt(desc), name, a, rep, locs)
}
