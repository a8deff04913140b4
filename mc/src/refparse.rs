//! R: reference parser. Plain recursive descent over the reference lexer's
//! tokens, written from the GraphQL grammar; builds the expected dump.

use crate::d;
use crate::dump::{m_dirs, m_enum, m_input, m_object, m_union};
use crate::lexref::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EK {
    /// token (or end, or malformed lexeme) that cannot continue the text
    Syntax,
    /// undecodable string or out-of-range integer
    BadValue,
    /// schema operations / empty extension: reported at the construct
    Semantic,
    /// nesting limit
    Deep,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct RErr {
    pub kind: EK,
    pub pos: P,
    pub alt: P,
    /// index of the offending token (== number of tokens: end or bad lexeme)
    pub tok: usize,
}

pub const DEF: u8 = 1;
pub const ITEM: u8 = 2;
pub const BOPEN: u8 = 4;
pub const BCLOSE: u8 = 8;
pub const AITEM: u8 = 16;
pub const AOPEN: u8 = 32;
pub const ACLOSE: u8 = 64;
/// first token after a description
pub const ADESC: u8 = 128;

pub struct R<'a> {
    pub src: &'a str,
    pub lx: Lexed,
    i: usize,
    /// layout roles of tokens
    pub marks: Vec<u8>,
}

type X<T> = Result<T, RErr>;

pub const LOCS: [&str; 19] = [
    "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD",
    "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION",
    "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION",
    "VARIABLE_DEFINITION",
];

impl<'a> R<'a> {
    pub fn new(src: &'a str, o: LexOpts) -> R<'a> {
        let lx = lex(src, o);
        let n = lx.toks.len();
        R { src, lx, i: 0, marks: vec![0; n + 1] }
    }
    fn tok(&self) -> Option<Tok> {
        self.lx.toks.get(self.i).copied()
    }
    fn text(&self) -> &'a str {
        match self.tok() {
            Some(t) => t.text(self.src),
            None => "",
        }
    }
    fn pos(&self) -> P {
        match self.tok() {
            Some(t) => t.pos,
            None => match self.lx.end {
                End::Eof { pos, .. } | End::Bad { pos, .. } | End::Deep { pos, .. } => pos,
            },
        }
    }
    fn fail<T>(&self) -> X<T> {
        let (kind, pos, alt) = match (self.tok(), self.lx.end) {
            (Some(t), _) => (EK::Syntax, t.pos, t.pos),
            (None, End::Eof { pos, alt }) => (EK::Syntax, pos, alt),
            (None, End::Bad { pos, .. }) => (EK::Syntax, pos, pos),
            (None, End::Deep { pos, .. }) => (EK::Deep, pos, pos),
        };
        Err(RErr { kind, pos, alt, tok: self.i })
    }
    fn bad_value<T>(&self) -> X<T> {
        let p = self.pos();
        Err(RErr { kind: EK::BadValue, pos: p, alt: p, tok: self.i })
    }
    fn kind(&self) -> Option<K> {
        self.tok().map(|t| t.k)
    }
    fn is(&self, p: &str) -> bool {
        self.kind() == Some(K::Punct) && self.text() == p
    }
    fn is_kw(&self, w: &str) -> bool {
        self.kind() == Some(K::Name) && self.text() == w
    }
    fn eat(&mut self, p: &str) -> bool {
        let b = self.is(p);
        if b {
            self.i += 1;
        }
        b
    }
    fn eat_kw(&mut self, w: &str) -> bool {
        let b = self.is_kw(w);
        if b {
            self.i += 1;
        }
        b
    }
    fn want(&mut self, p: &str) -> X<()> {
        if self.eat(p) {
            Ok(())
        } else {
            self.fail()
        }
    }
    fn want_kw(&mut self, p: &str) -> X<()> {
        if self.eat_kw(p) {
            Ok(())
        } else {
            self.fail()
        }
    }
    fn name(&mut self) -> X<&'a str> {
        if self.kind() == Some(K::Name) {
            let t = self.text();
            self.i += 1;
            Ok(t)
        } else {
            self.fail()
        }
    }
    fn mark(&mut self, m: u8) {
        self.marks[self.i] |= m;
    }
    fn open(&mut self, p: &str, m: u8) -> X<()> {
        let i = self.i;
        self.want(p)?;
        self.marks[i] |= m;
        Ok(())
    }
    fn close(&mut self, p: &str, m: u8) -> X<()> {
        let i = self.i;
        self.want(p)?;
        self.marks[i] |= m;
        Ok(())
    }

    /// quoted or block string at the cursor
    fn string(&mut self) -> X<String> {
        let v = match self.kind() {
            Some(K::Str) => match decode_string(self.text()) {
                Some(s) => s,
                None => return self.bad_value(),
            },
            Some(K::Block) => decode_block(self.text()),
            _ => return self.fail(),
        };
        self.i += 1;
        Ok(v)
    }
    fn description(&mut self) -> X<Option<String>> {
        match self.kind() {
            Some(K::Str | K::Block) => {
                let s = self.string()?;
                self.mark(ADESC);
                Ok(Some(s))
            }
            _ => Ok(None),
        }
    }

    fn value(&mut self, constant: bool) -> X<String> {
        let t = self.text();
        let v = match self.kind() {
            Some(K::Name) => match t {
                "true" => d::boolean(true),
                "false" => d::boolean(false),
                "null" => d::null(),
                _ => d::enum_(t),
            },
            Some(K::Int) => match int_value(t) {
                Some(i) => d::int(i),
                None => return self.bad_value(),
            },
            Some(K::Float) => d::float(t.parse::<f64>().unwrap()),
            Some(K::Str | K::Block) => {
                return Ok(d::string(&self.string()?));
            }
            Some(K::Punct) => match t {
                "$" if !constant => {
                    self.i += 1;
                    return Ok(d::var(self.name()?));
                }
                "[" => {
                    self.open("[", AOPEN)?;
                    let mut v = vec![];
                    while !self.is("]") {
                        self.mark(AITEM);
                        v.push(self.value(constant)?);
                    }
                    self.close("]", ACLOSE)?;
                    return Ok(d::lst(&v));
                }
                "{" => {
                    self.open("{", AOPEN)?;
                    let mut v: Vec<(String, String)> = vec![];
                    while !self.is("}") {
                        self.mark(AITEM);
                        let k = self.name()?;
                        self.want(":")?;
                        let x = self.value(constant)?;
                        match v.binary_search_by(|e| e.0.as_str().cmp(k)) {
                            Ok(i) => v[i].1 = x,
                            Err(i) => v.insert(i, (k.to_string(), x)),
                        }
                    }
                    self.close("}", ACLOSE)?;
                    return Ok(d::obj(&v));
                }
                _ => return self.fail(),
            },
            None => return self.fail(),
        };
        self.i += 1;
        Ok(v)
    }

    fn ty(&mut self) -> X<String> {
        let mut s = if self.eat("[") {
            let x = self.ty()?;
            self.want("]")?;
            format!("[{}]", x)
        } else {
            self.name()?.to_string()
        };
        if self.eat("!") {
            s.push('!');
        }
        Ok(s)
    }

    fn arguments(&mut self) -> X<String> {
        let mut v = vec![];
        if self.is("(") {
            self.open("(", AOPEN)?;
            loop {
                self.mark(AITEM);
                let k = self.name()?;
                self.want(":")?;
                let x = self.value(false)?;
                v.push((k.to_string(), x));
                if self.is(")") {
                    break;
                }
            }
            self.close(")", ACLOSE)?;
        }
        Ok(d::args(&v))
    }

    fn directives(&mut self) -> X<(String, bool)> {
        let mut v = vec![];
        while self.is("@") {
            let p = self.pos();
            self.i += 1;
            let n = self.name()?;
            let a = self.arguments()?;
            v.push(d::directive(p, n, &a));
        }
        Ok((d::list(&v), !v.is_empty()))
    }
    fn dirs(&mut self) -> X<String> {
        Ok(self.directives()?.0)
    }

    // ---- executable documents

    fn selection_set(&mut self) -> X<String> {
        let a = self.pos();
        self.open("{", BOPEN)?;
        let mut v = vec![];
        loop {
            self.mark(ITEM);
            v.push(self.selection()?);
            if self.is("}") {
                break;
            }
        }
        let b = self.pos();
        self.close("}", BCLOSE)?;
        Ok(d::selset(a, b, &v))
    }

    fn selection(&mut self) -> X<String> {
        if self.eat("...") {
            let p = self.pos();
            if self.eat_kw("on") {
                let n = self.name()?;
                let d = self.dirs()?;
                let s = self.selection_set()?;
                return Ok(d::inline(p, Some(n), &d, &s));
            }
            if self.kind() == Some(K::Name) {
                let n = self.name()?;
                let d = self.dirs()?;
                return Ok(d::spread(p, n, &d));
            }
            let d = self.dirs()?;
            let s = self.selection_set()?;
            return Ok(d::inline(p, None, &d, &s));
        }
        let p = self.pos();
        let mut name = self.name()?;
        let mut alias = None;
        if self.eat(":") {
            alias = Some(name);
            name = self.name()?;
        }
        let a = self.arguments()?;
        let d = self.dirs()?;
        let s = if self.is("{") {
            self.selection_set()?
        } else {
            d::selset(p, p, &[])
        };
        Ok(d::field(p, alias, name, &a, &d, &s))
    }

    fn executable(&mut self) -> X<String> {
        self.mark(DEF);
        let p = self.pos();
        if self.is("{") {
            return Ok(d::anon(&self.selection_set()?));
        }
        for k in ["query", "mutation", "subscription"] {
            if self.eat_kw(k) {
                let name = if self.kind() == Some(K::Name) { Some(self.name()?) } else { None };
                let mut vars = vec![];
                if self.eat("(") {
                    loop {
                        let p = self.pos();
                        self.want("$")?;
                        let n = self.name()?;
                        self.want(":")?;
                        let t = self.ty()?;
                        let def = if self.eat("=") { Some(self.value(true)?) } else { None };
                        vars.push(d::vardef(p, n, &t, def.as_deref()));
                        if self.eat(")") {
                            break;
                        }
                    }
                }
                let d = self.dirs()?;
                let s = self.selection_set()?;
                return Ok(d::op(k, p, name, &d::list(&vars), &d, &s));
            }
        }
        self.want_kw("fragment")?;
        let n = self.name()?;
        self.want_kw("on")?;
        let c = self.name()?;
        let d = self.dirs()?;
        let s = self.selection_set()?;
        Ok(d::fragment(p, n, c, &d, &s))
    }

    // ---- type system documents

    fn input_value(&mut self) -> X<String> {
        let p = self.pos();
        let desc = self.description()?;
        let n = self.name()?;
        self.want(":")?;
        let t = self.ty()?;
        let def = if self.eat("=") { Some(self.value(true)?) } else { None };
        let d = self.dirs()?;
        Ok(d::input(p, desc.as_deref(), n, &t, def.as_deref(), &d))
    }
    /// optional non-empty ( ... ) of argument definitions
    fn args_def(&mut self) -> X<String> {
        let mut v = vec![];
        if self.eat("(") {
            loop {
                v.push(self.input_value()?);
                if self.eat(")") {
                    break;
                }
            }
        }
        Ok(d::list(&v))
    }
    /// optional non-empty { ... }
    fn body(&mut self, item: fn(&mut R<'a>) -> X<String>) -> X<(String, bool)> {
        let mut v = vec![];
        if self.is("{") {
            self.open("{", BOPEN)?;
            loop {
                self.mark(ITEM);
                v.push(item(self)?);
                if self.is("}") {
                    break;
                }
            }
            self.close("}", BCLOSE)?;
        }
        Ok((d::list(&v), !v.is_empty()))
    }
    fn field_def(&mut self) -> X<String> {
        let p = self.pos();
        let desc = self.description()?;
        let n = self.name()?;
        let a = self.args_def()?;
        self.want(":")?;
        let t = self.ty()?;
        let d = self.dirs()?;
        Ok(d::sfield(p, desc.as_deref(), n, &a, &t, &d))
    }
    fn enum_value(&mut self) -> X<String> {
        let p = self.pos();
        let desc = self.description()?;
        let n = self.name()?;
        let d = self.dirs()?;
        Ok(d::enumval(p, desc.as_deref(), n, &d))
    }
    fn separated(&mut self, sep: &str) -> X<Vec<&'a str>> {
        let mut v = vec![];
        self.eat(sep);
        loop {
            v.push(self.name()?);
            if !self.eat(sep) {
                return Ok(v);
            }
        }
    }

    /// the part shared by type definitions and extensions, from the keyword on
    fn type_body(&mut self, ext: bool, desc: Option<String>) -> X<Option<String>> {
        let p = self.pos();
        let desc = if ext { None } else { Some(desc.as_deref()) };
        let kw = if self.kind() == Some(K::Name) { self.text() } else { "" };
        let (kind, name, parts, any);
        match kw {
            "scalar" => {
                self.i += 1;
                name = self.name()?;
                let (d, has) = self.directives()?;
                kind = "Scalar";
                parts = m_dirs(&d);
                any = has;
            }
            "type" | "interface" => {
                self.i += 1;
                name = self.name()?;
                let imp = if self.eat_kw("implements") { self.separated("&")? } else { vec![] };
                let (d, h) = self.directives()?;
                let (f, g) = self.body(R::field_def)?;
                kind = if kw == "type" { "Object" } else { "Interface" };
                parts = m_object(&d::names(imp.iter().copied()), &d, &f);
                any = h || g || !imp.is_empty();
            }
            "union" => {
                self.i += 1;
                name = self.name()?;
                let (d, h) = self.directives()?;
                let t = if self.eat("=") { self.separated("|")? } else { vec![] };
                kind = "Union";
                parts = m_union(&d, &d::names(t.iter().copied()));
                any = h || !t.is_empty();
            }
            "enum" => {
                self.i += 1;
                name = self.name()?;
                let (d, h) = self.directives()?;
                let (v, g) = self.body(R::enum_value)?;
                kind = "Enum";
                parts = m_enum(&d, &v);
                any = h || g;
            }
            "input" => {
                self.i += 1;
                name = self.name()?;
                let (d, h) = self.directives()?;
                let (v, g) = self.body(R::input_value)?;
                kind = "Input";
                parts = m_input(&d, &v);
                any = h || g;
            }
            _ => return Ok(None),
        }
        if ext && !any {
            // also an error in what follows would be seen first, if the
            // definition could have gone on
            return Err(RErr { kind: EK::Semantic, pos: p, alt: p, tok: self.i });
        }
        Ok(Some(d::typedef(kind, ext, p, desc, name, &parts)))
    }

    fn type_system(&mut self) -> X<String> {
        self.mark(DEF);
        let p = self.pos();
        if self.eat_kw("schema") {
            let d = self.dirs()?;
            self.open("{", BOPEN)?;
            let mut ops: [Option<&str>; 3] = [None; 3];
            let mut bad = false;
            while !self.is("}") {
                self.mark(ITEM);
                let k = self.name()?;
                self.want(":")?;
                let n = self.name()?;
                match ["query", "mutation", "subscription"].iter().position(|x| *x == k) {
                    Some(i) if ops[i].is_none() => ops[i] = Some(n),
                    _ => bad = true,
                }
            }
            self.close("}", BCLOSE)?;
            if bad {
                return Err(RErr { kind: EK::Semantic, pos: p, alt: p, tok: self.i });
            }
            return Ok(d::schemadef(p, &d, ops[0], ops[1], ops[2]));
        }
        if self.eat_kw("extend") {
            return match self.type_body(true, None)? {
                Some(s) => Ok(s),
                None => self.fail(),
            };
        }
        let desc = self.description()?;
        let p = self.pos();
        if self.is_kw("directive") {
            self.i += 1;
            self.want("@")?;
            let n = self.name()?;
            let a = self.args_def()?;
            let rep = self.eat_kw("repeatable");
            self.want_kw("on")?;
            let mut locs = vec![];
            // locations may be left out altogether
            if self.is("|") || self.kind() == Some(K::Name) {
                self.eat("|");
                loop {
                    if self.kind() == Some(K::Name) && LOCS.contains(&self.text()) {
                        locs.push(self.text());
                        self.i += 1;
                    } else {
                        return self.fail();
                    }
                    if !self.eat("|") {
                        break;
                    }
                }
            }
            return Ok(d::dirdef(p, desc.as_deref(), n, &a, rep, &d::names(locs.iter().copied())));
        }
        match self.type_body(false, desc)? {
            Some(s) => Ok(s),
            None => self.fail(),
        }
    }

    fn document(&mut self, def: fn(&mut R<'a>) -> X<String>) -> X<Vec<String>> {
        let mut v = vec![];
        loop {
            v.push(def(self)?);
            if self.tok().is_none() {
                return match self.lx.end {
                    End::Eof { .. } => Ok(v),
                    _ => self.fail(),
                };
            }
        }
    }
    pub fn query(&mut self) -> X<Vec<String>> {
        self.document(R::executable)
    }
    pub fn schema(&mut self) -> X<Vec<String>> {
        self.document(R::type_system)
    }
    /// one executable definition and the byte offset of the token after it
    pub fn one(&mut self) -> X<(String, usize)> {
        let v = self.executable()?;
        let off = match (self.tok(), self.lx.end) {
            (Some(t), _) => t.s,
            (None, End::Eof { .. }) => self.src.len(),
            (None, End::Bad { at, .. }) | (None, End::Deep { at, .. }) => at,
        };
        Ok((v, off))
    }
}

/// exact value of an integer lexeme, None if it does not fit
pub fn int_value(t: &str) -> Option<i64> {
    let (neg, digits) = match t.strip_prefix('-') {
        Some(x) => (true, x),
        None => (false, t),
    };
    let mut v: i128 = 0;
    for c in digits.bytes() {
        v = v * 10 + (c - b'0') as i128;
        if v > 1 << 64 {
            return None;
        }
    }
    if neg {
        v = -v;
    }
    i64::try_from(v).ok()
}

pub fn query(src: &str, o: LexOpts) -> X<String> {
    R::new(src, o).query().map(|v| v.iter().map(|x| x.clone() + "\n").collect())
}
pub fn schema(src: &str, o: LexOpts) -> X<String> {
    R::new(src, o).schema().map(|v| v.iter().map(|x| x.clone() + "\n").collect())
}
