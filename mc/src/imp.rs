//! Calls into the library under test.

use crate::dump::{self, Opt};
use crate::engine::guard;
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::Style;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out<T> {
    Ok(T),
    /// error message
    Err(String),
    /// panicked
    Crash(String),
}
use Out::*;

pub fn wrap<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    match guard(|| match f() {
        Result::Ok(x) => Result::Ok(x),
        Result::Err(e) => Result::Err(e.to_string()),
    }) {
        Result::Ok(Result::Ok(x)) => Ok(x),
        Result::Ok(Result::Err(e)) => Err(e),
        Result::Err(m) => Crash(m),
    }
}

pub type QDoc<'a> = q::Document<'a, &'a str>;
pub type SDoc<'a> = s::Document<'a, &'a str>;

pub fn query(src: &str) -> Out<QDoc<'_>> {
    wrap(|| q::parse_query::<&str>(src))
}
pub fn schema(src: &str) -> Out<SDoc<'_>> {
    wrap(|| s::parse_schema::<&str>(src))
}
pub fn qdump(src: &str) -> Out<String> {
    map(query(src), |d| dump::qdoc(&d, Opt::default()))
}
pub fn sdump(src: &str) -> Out<String> {
    map(schema(src), |d| dump::sdoc(&d, Opt::default()))
}
pub fn map<A, B>(o: Out<A>, f: impl FnOnce(A) -> B) -> Out<B> {
    match o {
        Ok(x) => Ok(f(x)),
        Err(e) => Err(e),
        Crash(e) => Crash(e),
    }
}
pub fn minify(src: &str) -> Out<String> {
    wrap(|| graphql_parser::minify_query(src.to_string()))
}
pub fn consume(src: &str) -> Out<(q::Definition<'_, &str>, &str)> {
    wrap(|| q::consume_definition::<&str>(src))
}
pub fn style(indent: u32, multi: bool) -> Style {
    let mut s = Style::default();
    s.indent(indent).multiline_arguments(multi);
    s
}
pub fn qformat<'a, T: q::Text<'a>>(d: &q::Document<'a, T>, st: &Style) -> Result<String, String> {
    guard(|| d.format(st))
}
pub fn sformat<'a, T: q::Text<'a>>(d: &s::Document<'a, T>, st: &Style) -> Result<String, String> {
    guard(|| d.format(st))
}
pub fn show<T: std::fmt::Display>(d: &T) -> Result<String, String> {
    guard(|| d.to_string())
}

/// position in an error message "... Parse error at L:C\n..."
pub fn errpos(msg: &str) -> Option<(u32, u32)> {
    let i = msg.find("Parse error at ")? + "Parse error at ".len();
    let rest = &msg[i..];
    let end = rest.find('\n').unwrap_or(rest.len());
    let (l, c) = rest[..end].split_once(':')?;
    Some((l.trim().parse().ok()?, c.trim().parse().ok()?))
}
