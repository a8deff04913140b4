//! L: reference lexer, written from the lexical grammar of the GraphQL
//! specification, character by character. Shares nothing with the
//! implementation.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Punct,
    Name,
    Int,
    Float,
    Str,
    Block,
}

pub type P = (u32, u32);

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub k: K,
    pub s: usize,
    pub e: usize,
    pub pos: P,
}

impl Tok {
    pub fn text<'a>(&self, src: &'a str) -> &'a str {
        &src[self.s..self.e]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    /// end of input; `alt` is a second acceptable position (after a comment
    /// that the input ends in)
    Eof { pos: P, alt: P },
    /// malformed lexeme starting at byte `at`
    Bad { at: usize, pos: P },
    /// bracket beyond the nesting limit
    Deep { at: usize, pos: P },
}

#[derive(Clone, Debug)]
pub struct Lexed {
    pub toks: Vec<Tok>,
    pub end: End,
    #[allow(dead_code)]
    pub end_off: usize,
}

#[derive(Clone, Copy)]
pub struct LexOpts {
    /// known finding K1: exponent without sign that starts with 0 is refused
    pub k1: bool,
    /// nesting limit
    pub limit: Option<i64>,
}

pub const PLAIN: LexOpts = LexOpts { k1: false, limit: None };
pub const PARSER: LexOpts = LexOpts { k1: false, limit: Some(50) };

fn name_start(c: u8) -> bool {
    c == b'_' || c.is_ascii_alphabetic()
}
fn name_cont(c: u8) -> bool {
    c == b'_' || c.is_ascii_alphanumeric()
}

/// Advance a position over text inside a token.
pub fn advance_in_token(mut p: P, text: &str) -> P {
    let b = text.as_bytes();
    for (i, c) in text.char_indices() {
        match c {
            '\n' => p = (p.0 + 1, 1),
            '\r' if b.get(i + 1) == Some(&b'\n') => {}
            '\r' => p = (p.0 + 1, 1),
            _ => p.1 += 1,
        }
    }
    p
}

/// Some(end) for a number at `i`, None if malformed.
/// Second component: float; third: K1 lexeme.
pub fn number(b: &[u8], mut i: usize) -> Option<(usize, bool, bool)> {
    let mut float = false;
    let mut k1 = false;
    if b.get(i) == Some(&b'-') {
        i += 1;
    }
    match b.get(i) {
        Some(b'0') => i += 1,
        Some(b'1'..=b'9') => {
            while matches!(b.get(i), Some(b'0'..=b'9')) {
                i += 1;
            }
        }
        _ => return None,
    }
    if b.get(i) == Some(&b'.') {
        float = true;
        i += 1;
        if !matches!(b.get(i), Some(b'0'..=b'9')) {
            return None;
        }
        while matches!(b.get(i), Some(b'0'..=b'9')) {
            i += 1;
        }
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        float = true;
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) {
            i += 1;
        } else if b.get(i) == Some(&b'0') {
            k1 = true;
        }
        if !matches!(b.get(i), Some(b'0'..=b'9')) {
            return None;
        }
        while matches!(b.get(i), Some(b'0'..=b'9')) {
            i += 1;
        }
    }
    match b.get(i) {
        Some(&c) if name_cont(c) || c == b'.' => None,
        _ => Some((i, float, k1)),
    }
}

pub fn lex(src: &str, o: LexOpts) -> Lexed {
    let b = src.as_bytes();
    let mut toks = Vec::new();
    let mut i = 0usize;
    let mut pos: P = (1, 1);
    let mut depth: i64 = 0;
    macro_rules! done {
        ($end:expr) => {
            return Lexed { toks, end: $end, end_off: i }
        };
    }
    loop {
        // ignored text
        let mut alt = None;
        while i < b.len() {
            match b[i] {
                b' ' | b',' => {
                    pos.1 += 1;
                    i += 1;
                }
                b'\t' => {
                    pos.1 += 8;
                    i += 1;
                }
                b'\n' => {
                    pos = (pos.0 + 1, 1);
                    i += 1;
                }
                b'\r' => {
                    if b.get(i + 1) != Some(&b'\n') {
                        pos = (pos.0 + 1, 1);
                    }
                    i += 1;
                }
                0xEF if src[i..].starts_with('\u{feff}') => i += 3,
                b'#' => {
                    let rest = &src[i..];
                    let n = rest.find(['\n', '\r']).unwrap_or(rest.len());
                    if n == rest.len() {
                        alt = Some((pos.0, pos.1 + rest.chars().count() as u32));
                    }
                    // the column does not matter, a line end follows
                    i += n;
                }
                _ => break,
            }
        }
        if i >= b.len() {
            done!(End::Eof { pos, alt: alt.unwrap_or(pos) });
        }
        let s = i;
        let c = b[i];
        let (k, e) = match c {
            b'!' | b'$' | b'&' | b'(' | b')' | b':' | b'=' | b'@' | b'[' | b']' | b'{' | b'|'
            | b'}' => {
                match c {
                    b'(' | b'[' | b'{' => {
                        depth += 1;
                        if let Some(l) = o.limit {
                            if depth > l {
                                done!(End::Deep { at: i, pos });
                            }
                        }
                    }
                    b')' | b']' | b'}' => depth -= 1,
                    _ => {}
                }
                (K::Punct, i + 1)
            }
            b'.' => {
                if src[i..].starts_with("...") {
                    (K::Punct, i + 3)
                } else {
                    done!(End::Bad { at: i, pos });
                }
            }
            _ if name_start(c) => {
                let mut e = i + 1;
                while e < b.len() && name_cont(b[e]) {
                    e += 1;
                }
                (K::Name, e)
            }
            b'-' | b'0'..=b'9' => match number(b, i) {
                Some((_, true, true)) if o.k1 => done!(End::Bad { at: i, pos }),
                Some((e, f, _)) => (if f { K::Float } else { K::Int }, e),
                None => done!(End::Bad { at: i, pos }),
            },
            b'"' if src[i..].starts_with("\"\"\"") => {
                let mut e = i + 3;
                loop {
                    let rest = &src[e..];
                    if rest.is_empty() {
                        done!(End::Bad { at: i, pos });
                    } else if rest.starts_with("\\\"\"\"") {
                        e += 4;
                    } else if rest.starts_with("\"\"\"") {
                        e += 3;
                        break;
                    } else {
                        e += rest.chars().next().unwrap().len_utf8();
                    }
                }
                (K::Block, e)
            }
            b'"' => {
                let mut e = i + 1;
                loop {
                    match b.get(e) {
                        None | Some(b'\n') | Some(b'\r') => done!(End::Bad { at: i, pos }),
                        Some(b'"') => {
                            e += 1;
                            break;
                        }
                        Some(b'\\') => match src[e + 1..].chars().next() {
                            None | Some('\n') | Some('\r') => done!(End::Bad { at: i, pos }),
                            Some(x) => e += 1 + x.len_utf8(),
                        },
                        Some(_) => e += src[e..].chars().next().unwrap().len_utf8(),
                    }
                }
                (K::Str, e)
            }
            _ => done!(End::Bad { at: i, pos }),
        };
        toks.push(Tok { k, s, e, pos });
        pos = advance_in_token(pos, &src[s..e]);
        i = e;
    }
}

/// Value of a quoted string literal (with its quotes), None if an escape is bad.
pub fn decode_string(lit: &str) -> Option<String> {
    let body: Vec<char> = lit[1..lit.len() - 1].chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < body.len() {
        if body[i] != '\\' {
            out.push(body[i]);
            i += 1;
            continue;
        }
        let c = *body.get(i + 1)?;
        i += 2;
        out.push(match c {
            '"' => '"',
            '\\' => '\\',
            '/' => '/',
            'b' => '\u{8}',
            'f' => '\u{c}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'u' => {
                let mut v = 0u32;
                for _ in 0..4 {
                    let h = match *body.get(i)? {
                        h @ '0'..='9' => h as u32 - '0' as u32,
                        h @ 'a'..='f' => h as u32 - 'a' as u32 + 10,
                        h @ 'A'..='F' => h as u32 - 'A' as u32 + 10,
                        _ => return None,
                    };
                    v = v * 16 + h;
                    i += 1;
                }
                char::from_u32(v)?
            }
            _ => return None,
        });
    }
    Some(out)
}

/// BlockStringValue of the specification, applied to a literal with its quotes.
pub fn decode_block(lit: &str) -> String {
    let raw = &lit[3..lit.len() - 3];
    // escape \""" is resolved in the raw value first, as in the specification
    let raw: Vec<char> = raw.replace("\\\"\"\"", "\"\"\"").chars().collect();
    let mut lines: Vec<Vec<char>> = vec![vec![]];
    let mut i = 0;
    while i < raw.len() {
        match raw[i] {
            '\r' => {
                if raw.get(i + 1) == Some(&'\n') {
                    i += 1;
                }
                lines.push(vec![]);
            }
            '\n' => lines.push(vec![]),
            c => lines.last_mut().unwrap().push(c),
        }
        i += 1;
    }
    let ws = |l: &[char]| l.iter().take_while(|c| **c == ' ' || **c == '\t').count();
    let mut common: Option<usize> = None;
    for l in lines.iter().skip(1) {
        let n = ws(l);
        if n < l.len() {
            common = Some(common.map_or(n, |c| c.min(n)));
        }
    }
    if let Some(c) = common {
        for l in lines.iter_mut().skip(1) {
            let n = c.min(l.len());
            l.drain(..n);
        }
    }
    while lines.first().map_or(false, |l| ws(l) == l.len()) {
        lines.remove(0);
    }
    while lines.last().map_or(false, |l| ws(l) == l.len()) {
        lines.pop();
    }
    let mut out = String::new();
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            out.push('\n');
        }
        out.extend(l.iter());
    }
    out
}
