//! What TOML documents denote, within the subset the crate supports.

use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub enum TV {
    Str(String),
    Bool(bool),
    Num(f64),
    Date(String),
    Arr(Vec<TV>),
    Tables(Vec<BTreeMap<String, TV>>),
}
pub type Table = BTreeMap<String, TV>;

#[derive(Clone, Debug)]
pub enum Bad {
    Reject(usize, String),
    Gray(&'static str),
}
type R<X> = Result<X, Bad>;

/// Is the value (as a variant and through its accessors) the one of the model?
pub fn same(a: &TV, b: &nanoserde::Toml) -> bool {
    use nanoserde::Toml as T;
    match (a, b) {
        (TV::Str(x), T::Str(y)) => x == y && b.str() == x,
        (TV::Bool(x), T::Bool(y)) => x == y && b.boolean() == *x,
        (TV::Num(x), T::Num(y)) => (x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()) && b.num().to_bits() == y.to_bits(),
        (TV::Date(x), T::Date(y)) => x == y && b.date() == *x,
        (TV::Arr(x), T::SimpleArray(y)) => {
            x.len() == y.len() && b.simple_arr().len() == x.len() && x.iter().zip(b.simple_arr()).all(|(a, b)| same(a, b))
        }
        (TV::Tables(x), T::Array(y)) => {
            x.len() == y.len() && b.arr().len() == x.len() && x.iter().enumerate().all(|(i, a)| same_table(a, &b[i]))
        }
        _ => false,
    }
}
pub fn same_table(a: &Table, b: &BTreeMap<String, nanoserde::Toml>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y))
}

fn bare(c: char) -> bool {
    // the unquoted key characters of the TOML grammar
    matches!(c, 'A'..='Z' | 'a'..='z' | '0'..='9' | '-' | '_')
        || matches!(c as u32,
            0xB2 | 0xB3 | 0xB9 | 0xBC..=0xBE | 0xC0..=0xD6 | 0xD8..=0xF6 | 0xF8..=0x37D | 0x37F..=0x1FFF
            | 0x200C..=0x200D | 0x203F..=0x2040 | 0x2070..=0x218F | 0x2460..=0x24FF | 0x2C00..=0x2FEF
            | 0x3001..=0xD7FF | 0xF900..=0xFDCF | 0xFDF0..=0xFFFD | 0x10000..=0xEFFFF)
}

struct P {
    c: Vec<char>,
    i: usize,
}

pub fn parse(text: &str) -> R<Table> {
    let mut p = P { c: text.chars().collect(), i: 0 };
    if text.contains('\0') {
        return Err(Bad::Gray("NUL"));
    }
    let mut top: Table = BTreeMap::new();
    let mut tables: HashSet<String> = HashSet::new();
    let mut scope = String::new();
    let mut active: Option<String> = None;
    loop {
        p.blank()?;
        let Some(c) = p.at(0) else { return Ok(top) };
        if c == '[' {
            let array = p.at(1) == Some('[');
            p.i += if array { 2 } else { 1 };
            p.spaces();
            if !array && p.at(0) == Some('[') {
                return Err(Bad::Gray("split brackets"));
            }
            if p.at(0) == Some(']') {
                return Err(Bad::Gray("empty header"));
            }
            let at = p.i;
            let key = p.key()?;
            p.close(array)?;
            p.line_end()?;
            if array {
                match top.get_mut(&key) {
                    None => {
                        if tables.contains(&key) {
                            return Err(Bad::Gray("array named like a table"));
                        }
                        top.insert(key.clone(), TV::Tables(vec![BTreeMap::new()]));
                    }
                    Some(TV::Tables(v)) => v.push(BTreeMap::new()),
                    Some(_) => return Err(Bad::Reject(at, "name already in use".into())),
                }
                active = Some(key);
                scope.clear();
            } else {
                if tables.contains(&key) || top.contains_key(&key) {
                    return Err(Bad::Gray("table defined twice"));
                }
                if active.as_ref().is_some_and(|a| key.strip_prefix(a.as_str()).is_some_and(|r| r.starts_with('.'))) {
                    return Err(Bad::Gray("table inside an array of tables"));
                }
                tables.insert(key.clone());
                scope = key;
                active = None;
            }
            continue;
        }
        let key = p.key()?;
        let nl = p.skip_to_value()?;
        if p.at(0) != Some('=') {
            return Err(Bad::Reject(p.i, "= expected".into()));
        }
        p.i += 1;
        let nl2 = p.skip_to_value()?;
        let v = p.value()?;
        if nl || nl2 {
            return Err(Bad::Gray("line break around ="));
        }
        p.line_end()?;
        let full = if scope.is_empty() { key } else { format!("{scope}.{key}") };
        if tables.contains(&full) && active.is_none() {
            return Err(Bad::Gray("key named like a table"));
        }
        let t = match &active {
            None => &mut top,
            Some(a) => match top.get_mut(a) {
                Some(TV::Tables(v)) => v.last_mut().unwrap(),
                _ => unreachable!(),
            },
        };
        if t.insert(full, v).is_some() {
            return Err(Bad::Gray("key defined twice"));
        }
    }
}

impl P {
    fn at(&self, k: usize) -> Option<char> {
        self.c.get(self.i + k).copied()
    }
    fn bad<X>(&self, w: &str) -> R<X> {
        Err(Bad::Reject(self.i, w.into()))
    }
    fn spaces(&mut self) {
        while let Some(' ' | '\t') = self.at(0) {
            self.i += 1
        }
    }
    /// whitespace, line ends and comments; says whether a line ended
    fn blank(&mut self) -> R<bool> {
        let mut nl = false;
        loop {
            match self.at(0) {
                Some(' ' | '\t') => self.i += 1,
                Some('\n') => {
                    nl = true;
                    self.i += 1
                }
                Some('\r') => {
                    if self.at(1) != Some('\n') {
                        return Err(Bad::Gray("lone CR"));
                    }
                    self.i += 1
                }
                Some('#') => self.comment()?,
                _ => return Ok(nl),
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        while let Some(c) = self.at(0) {
            if c == '\n' {
                break;
            }
            if (c as u32) < 0x20 && c != '\t' && !(c == '\r' && self.at(1) == Some('\n')) {
                return Err(Bad::Gray("control character in a comment"));
            }
            self.i += 1
        }
        Ok(())
    }
    /// like blank, where a comment is unexpected as well
    fn skip_to_value(&mut self) -> R<bool> {
        self.spaces();
        match self.at(0) {
            Some('\n' | '\r' | '#') => {
                self.blank()?;
                Ok(true)
            }
            _ => Ok(false),
        }
    }
    fn line_end(&mut self) -> R<()> {
        self.spaces();
        match self.at(0) {
            None | Some('\n' | '#') => Ok(()),
            Some('\r') if self.at(1) == Some('\n') => Ok(()),
            _ => Err(Bad::Gray("more on the line")),
        }
    }
    fn close(&mut self, array: bool) -> R<()> {
        let nl = self.skip_to_value()?;
        if self.at(0) != Some(']') {
            return self.bad("] expected");
        }
        self.i += 1;
        if array {
            if self.at(0) != Some(']') {
                let nl2 = self.blank()?;
                if self.at(0) == Some(']') {
                    let _ = nl2;
                    return Err(Bad::Gray("split brackets"));
                }
                return self.bad("]] expected");
            }
            self.i += 1;
        }
        if nl {
            return Err(Bad::Gray("line break in a header"));
        }
        Ok(())
    }
    fn key(&mut self) -> R<String> {
        match self.at(0) {
            Some('"') => {
                if self.at(1) == Some('"') && self.at(2) == Some('"') {
                    return Err(Bad::Gray("multi-line key"));
                }
                let s = self.string()?;
                self.key_end()?;
                Ok(s)
            }
            Some(c) if bare(c) => {
                let mut s = String::new();
                while let Some(c) = self.at(0) {
                    if bare(c) {
                        s.push(c);
                    } else if c == '.' {
                        if s.is_empty() || s.ends_with('.') || !self.at(1).is_some_and(bare) {
                            return Err(Bad::Gray("unusual dotted key"));
                        }
                        s.push('.');
                    } else {
                        break;
                    }
                    self.i += 1;
                }
                if self.at(0) == Some(':') && s.starts_with(|c: char| c == '-' || c.is_ascii_digit()) {
                    return Err(Bad::Gray("time as a key"));
                }
                self.key_end()?;
                Ok(s)
            }
            _ => Err(Bad::Gray("no key starts like this")),
        }
    }
    fn key_end(&self) -> R<()> {
        let mut k = 0;
        while let Some(' ' | '\t') = self.at(k) {
            k += 1
        }
        if self.at(k) == Some('.') {
            return Err(Bad::Gray("unusual dotted key"));
        }
        Ok(())
    }
    fn string(&mut self) -> R<String> {
        let multi = self.at(1) == Some('"') && self.at(2) == Some('"');
        self.i += if multi { 3 } else { 1 };
        let mut o = String::new();
        let mut gray = None;
        if multi {
            if self.at(0) == Some('\r') && self.at(1) == Some('\n') {
                self.i += 1;
            }
            if self.at(0) == Some('\n') {
                self.i += 1;
            }
        }
        loop {
            let Some(c) = self.at(0) else { return self.bad("unterminated string") };
            match c {
                '"' if !multi => {
                    self.i += 1;
                    break;
                }
                '"' => {
                    let mut n = 0;
                    while self.at(n) == Some('"') {
                        n += 1
                    }
                    if n < 3 {
                        self.i += n;
                        (0..n).for_each(|_| o.push('"'));
                    } else {
                        let k = n.min(5);
                        self.i += k;
                        (3..k).for_each(|_| o.push('"'));
                        break;
                    }
                }
                '\\' => {
                    let Some(e) = self.at(1) else {
                        self.i += 1;
                        return self.bad("unterminated string");
                    };
                    self.i += 2;
                    match e {
                        'b' => o.push('\u{8}'),
                        't' => o.push('\t'),
                        'n' => o.push('\n'),
                        'f' => o.push('\u{c}'),
                        'r' => o.push('\r'),
                        '"' => o.push('"'),
                        '\\' => o.push('\\'),
                        'u' | 'U' => {
                            let n = if e == 'u' { 4 } else { 8 };
                            let mut v: u32 = 0;
                            for _ in 0..n {
                                match self.at(0).and_then(|c| c.to_digit(16)) {
                                    Some(d) => v = v << 4 | d,
                                    None => return self.bad("bad unicode escape"),
                                }
                                self.i += 1;
                            }
                            match char::from_u32(v) {
                                Some(c) => o.push(c),
                                None => return self.bad("bad unicode escape"),
                            }
                        }
                        ' ' | '\t' | '\n' | '\r' if multi => {
                            self.i -= 1;
                            let mut nl = false;
                            while let Some(c @ (' ' | '\t' | '\n' | '\r')) = self.at(0) {
                                if c == '\r' && self.at(1) != Some('\n') {
                                    gray = Some("lone CR");
                                }
                                nl |= c == '\n';
                                self.i += 1;
                            }
                            if !nl {
                                gray = Some("unknown escape");
                            }
                        }
                        c => {
                            gray = Some("unknown escape");
                            o.push(c);
                        }
                    }
                }
                '\n' if multi => {
                    o.push('\n');
                    self.i += 1;
                }
                c => {
                    if (c as u32) < 0x20 && c != '\t' || c == '\u{7f}' {
                        gray = Some("control character in a string");
                    }
                    o.push(c);
                    self.i += 1;
                }
            }
        }
        match gray {
            Some(g) => Err(Bad::Gray(g)),
            None => Ok(o),
        }
    }
    fn value(&mut self) -> R<TV> {
        match self.at(0) {
            None => self.bad("value expected"),
            Some('"') => Ok(TV::Str(self.string()?)),
            Some('[') => {
                self.i += 1;
                let mut v = vec![];
                let mut gray = None;
                let mut comma = true;
                loop {
                    self.blank()?;
                    match self.at(0) {
                        None => return self.bad("unterminated array"),
                        Some(']') => {
                            self.i += 1;
                            return match gray {
                                Some(g) => Err(Bad::Gray(g)),
                                None => Ok(TV::Arr(v)),
                            };
                        }
                        Some(',') => {
                            if comma {
                                gray = Some("stray comma");
                            }
                            comma = true;
                            self.i += 1;
                        }
                        _ => {
                            if !comma {
                                gray = Some("missing comma");
                            }
                            comma = false;
                            v.push(self.value()?);
                        }
                    }
                }
            }
            Some(c) if bare(c) || c == '+' || c == '.' => {
                let mut s = String::new();
                while let Some(c) = self.at(0) {
                    if bare(c) || matches!(c, '+' | '.' | ':') {
                        s.push(c);
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                if !matches!(self.at(0), None | Some(' ' | '\t' | '\r' | '\n' | ',' | ']' | '#')) {
                    return Err(Bad::Gray("value runs into something"));
                }
                self.word(&s)
            }
            // what else may start a value in other dialects
            Some('\'' | '{') => Err(Bad::Gray("kind of value which is not supported")),
            Some(_) => self.bad("no value starts like this"),
        }
    }
    fn word(&self, s: &str) -> R<TV> {
        match s {
            "true" => return Ok(TV::Bool(true)),
            "false" => return Ok(TV::Bool(false)),
            "inf" | "+inf" => return Ok(TV::Num(f64::INFINITY)),
            "-inf" => return Ok(TV::Num(f64::NEG_INFINITY)),
            "nan" | "+nan" | "-nan" => return Ok(TV::Num(f64::NAN)),
            _ => {}
        }
        let body = s.trim_start_matches(['+', '-']);
        if body.len() + 1 < s.len() {
            return Err(Bad::Gray("two signs"));
        }
        let first = body.chars().next();
        if !first.is_some_and(|c| c.is_ascii_digit()) {
            if first.is_some_and(|c| c.is_alphabetic() || c == '_') && s == body && !s.contains([':', '+']) {
                return self.bad("bare word as value");
            }
            return Err(Bad::Gray("unusual word"));
        }
        if is_date(s) {
            return Ok(TV::Date(s.to_string()));
        }
        let int_ok = |d: &str| {
            !d.is_empty()
                && d.chars().all(|c| c.is_ascii_digit() || c == '_')
                && !d.starts_with('_')
                && !d.ends_with('_')
                && !d.contains("__")
        };
        let (ip, fp) = match body.split_once('.') {
            Some((a, b)) => (a, Some(b)),
            None => (body, None),
        };
        if !int_ok(ip) || !fp.is_none_or(int_ok) || (ip.len() > 1 && ip.starts_with('0')) {
            return Err(Bad::Gray("unusual number"));
        }
        let clean: String = s.chars().filter(|c| *c != '_').collect();
        if fp.is_some() {
            return Ok(TV::Num(clean.parse().unwrap()));
        }
        match clean.parse::<i64>() {
            Ok(n) => Ok(TV::Num(n as f64)),
            Err(_) => Err(Bad::Gray("integer beyond 64 bits")),
        }
    }
}

/// 1979-05-27 or 1979-05-27T07:32:00
fn is_date(s: &str) -> bool {
    let pat = |p: &str| {
        s.len() == p.len() && s.bytes().zip(p.bytes()).all(|(c, p)| if p == b'0' { c.is_ascii_digit() } else { c == p })
    };
    pat("0000-00-00") || pat("0000-00-00T00:00:00")
}
