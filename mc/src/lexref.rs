//! Tokens of JSON (with comments) and RON, independently of the crate.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Flavor {
    Json,
    Ron,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Punct(char),
    Str(String),
    Num(String),
    Ident(String),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub start: usize,
    pub end: usize,
    /// The property leaves open whether this token is accepted.
    pub gray: Option<&'static str>,
}

#[derive(Clone, Debug)]
pub struct LexErr {
    pub start: usize,
    pub end: usize,
    pub what: &'static str,
    pub gray: bool,
}

#[derive(Clone, Debug)]
pub struct Lexed {
    pub toks: Vec<Tok>,
    pub err: Option<LexErr>,
    pub len: usize,
}

pub fn lex(text: &str, fl: Flavor) -> Lexed {
    let b: Vec<(usize, char)> = text.char_indices().collect();
    let at = |i: usize| b.get(i).map(|x| x.1);
    let off = |i: usize| b.get(i).map_or(text.len(), |x| x.0);
    let mut toks = vec![];
    let mut i = 0;
    macro_rules! fail {
        ($s:expr, $e:expr, $w:expr, $g:expr) => {
            return Lexed { toks, err: Some(LexErr { start: $s, end: $e, what: $w, gray: $g }), len: text.len() }
        };
    }
    loop {
        // whitespace and comments
        loop {
            match at(i) {
                Some(' ' | '\t' | '\n' | '\r') => i += 1,
                Some('/') => {
                    let s = off(i);
                    match at(i + 1) {
                        Some('/') => {
                            i += 2;
                            while at(i).is_some_and(|c| c != '\n') {
                                if at(i) == Some('\0') {
                                    fail!(s, off(i), "NUL in a comment", true);
                                }
                                i += 1;
                            }
                        }
                        Some('*') => {
                            i += 2;
                            loop {
                                match (at(i), at(i + 1)) {
                                    (None, _) => fail!(s, off(i), "unterminated comment", fl == Flavor::Ron),
                                    (Some('\0'), _) => fail!(s, off(i), "NUL in a comment", true),
                                    (Some('*'), Some('/')) => {
                                        i += 2;
                                        break;
                                    }
                                    _ => i += 1,
                                }
                            }
                        }
                        _ => fail!(s, off(i + 1), "stray slash", false),
                    }
                }
                _ => break,
            }
        }
        let start = off(i);
        let Some(c) = at(i) else { return Lexed { toks, err: None, len: text.len() } };
        let mut gray = None;
        let t = match c {
            '[' | ']' | '{' | '}' | ',' | ':' => {
                i += 1;
                T::Punct(c)
            }
            '(' | ')' if fl == Flavor::Ron => {
                i += 1;
                T::Punct(c)
            }
            '\0' => fail!(start, off(i + 1), "NUL", true),
            '\'' if fl == Flavor::Ron => fail!(start, off(i + 1), "char literal", true),
            '"' => {
                let mut s = String::new();
                i += 1;
                loop {
                    match at(i) {
                        None => fail!(start, text.len(), "unterminated string", false),
                        Some('\0') => fail!(start, off(i), "NUL in a string", true),
                        Some('"') => {
                            i += 1;
                            break;
                        }
                        Some('\\') => {
                            let e = at(i + 1);
                            i += 2;
                            match e {
                                None => fail!(start, text.len(), "unterminated string", false),
                                Some('\0') => fail!(start, off(i - 1), "NUL in a string", true),
                                Some('n') => s.push('\n'),
                                Some('r') => s.push('\r'),
                                Some('t') => s.push('\t'),
                                Some('b') => s.push('\u{8}'),
                                Some('f') => s.push('\u{c}'),
                                Some('"') => s.push('"'),
                                Some('\\') => s.push('\\'),
                                Some('/') => s.push('/'),
                                Some('0') => {
                                    if fl == Flavor::Json {
                                        gray = Some("\\0 escape");
                                    }
                                    s.push('\0')
                                }
                                Some('u') => {
                                    let hex = |i: &mut usize| -> Option<u32> {
                                        let mut v = 0;
                                        for _ in 0..4 {
                                            v = v * 16 + at(*i)?.to_digit(16)?;
                                            *i += 1;
                                        }
                                        Some(v)
                                    };
                                    let Some(a) = hex(&mut i) else {
                                        fail!(start, off(i + 1), "bad unicode escape", false)
                                    };
                                    match char::from_u32(a) {
                                        Some(c) => s.push(c),
                                        None => {
                                            let mut ok = None;
                                            if a < 0xdc00 && at(i) == Some('\\') && at(i + 1) == Some('u') {
                                                i += 2;
                                                if let Some(b) = hex(&mut i) {
                                                    if (0xdc00..0xe000).contains(&b) {
                                                        ok = char::from_u32(
                                                            0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00),
                                                        );
                                                    }
                                                }
                                            }
                                            match ok {
                                                Some(c) => s.push(c),
                                                None => fail!(start, off(i + 2), "lone surrogate", false),
                                            }
                                        }
                                    }
                                }
                                Some(c) => {
                                    gray = Some("unknown escape");
                                    s.push(c)
                                }
                            }
                        }
                        Some(c) => {
                            if (c as u32) < 0x20 && fl == Flavor::Json {
                                gray = Some("raw control character");
                            }
                            s.push(c);
                            i += 1;
                        }
                    }
                }
                T::Str(s)
            }
            '-' | '+' | '0'..='9' | '.' if c != '.' || fl == Flavor::Ron => {
                let mut s = String::new();
                if c == '-' || c == '+' {
                    s.push(c);
                    i += 1;
                }
                let digits = |i: &mut usize, s: &mut String| -> usize {
                    let mut n = 0;
                    while let Some(c @ '0'..='9') = at(*i) {
                        s.push(c);
                        *i += 1;
                        n += 1;
                    }
                    n
                };
                let ip = digits(&mut i, &mut s);
                let lead0 = ip > 1 && s.trim_start_matches(['-', '+']).starts_with('0');
                let mut fp = None;
                if at(i) == Some('.') {
                    s.push('.');
                    i += 1;
                    fp = Some(digits(&mut i, &mut s));
                }
                let mut ep = None;
                if let Some(c @ ('e' | 'E')) = at(i) {
                    s.push(c);
                    i += 1;
                    if let Some(c @ ('-' | '+')) = at(i) {
                        s.push(c);
                        i += 1;
                    }
                    ep = Some(digits(&mut i, &mut s));
                }
                if ip + fp.unwrap_or(0) == 0 || ep == Some(0) {
                    fail!(start, off(i + 1), "malformed number", false);
                }
                if lead0 {
                    gray = Some("leading zero");
                }
                if fl == Flavor::Json && (c == '+' || ip == 0 || fp == Some(0)) {
                    gray = Some("number notation beyond JSON");
                }
                T::Num(s)
            }
            'a'..='z' | 'A'..='Z' | '_' => {
                let mut s = String::new();
                while let Some(c) = at(i) {
                    if c.is_ascii_alphabetic() || c == '_' || fl == Flavor::Ron && c.is_ascii_digit() {
                        s.push(c);
                        i += 1;
                    } else {
                        break;
                    }
                }
                if fl == Flavor::Json && !matches!(&s[..], "true" | "false" | "null") {
                    fail!(start, off(i), "bare word", false);
                }
                T::Ident(s)
            }
            _ => fail!(start, off(i + 1), "no token starts like this", false),
        };
        toks.push(Tok { t, start, end: off(i), gray });
    }
}
