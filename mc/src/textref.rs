//! What JSON and RON documents denote, given the type: a decoder with three
//! verdicts, and writers of all spellings.

use crate::lexref::*;
use crate::schema::*;

#[derive(Debug, Clone)]
pub enum Bad {
    /// .0 is the index of the token at fault, which may be the lexical error or
    /// the end of the text behind the last token
    Reject(usize, String),
    Gray(&'static str),
}

pub struct Dec<'a> {
    lx: &'a Lexed,
    pub i: usize,
    fl: Flavor,
}

type R<X> = Result<X, Bad>;

pub fn denotes(s: &S, text: &str, fl: Flavor) -> (Lexed, R<(Val, usize)>) {
    let lx = lex(text, fl);
    let mut d = Dec { lx: &lx, i: 0, fl };
    let r = d.val(s).map(|v| (v, d.i));
    (lx, r)
}

/// As `denotes`, where anything behind the value is left open.
pub fn verdict(s: &S, text: &str, fl: Flavor) -> (Lexed, R<Val>) {
    let (lx, r) = denotes(s, text, fl);
    let r = match r {
        Ok((v, i)) => {
            if i < lx.toks.len() || lx.err.is_some() {
                Err(Bad::Gray("text behind the value"))
            } else {
                Ok(v)
            }
        }
        Err(e) => Err(e),
    };
    (lx, r)
}

impl<'a> Dec<'a> {
    pub fn new(lx: &'a Lexed, fl: Flavor) -> Self {
        Dec { lx, i: 0, fl }
    }
    fn peek(&self) -> R<&'a T> {
        match self.lx.toks.get(self.i) {
            Some(t) => Ok(&t.t),
            None => match &self.lx.err {
                Some(e) if e.gray => Err(Bad::Gray(e.what)),
                Some(e) => Err(Bad::Reject(self.i, e.what.into())),
                None => Err(Bad::Reject(self.i, "end of text".into())),
            },
        }
    }
    fn is(&self, c: char) -> R<bool> {
        Ok(*self.peek()? == T::Punct(c))
    }
    fn bad<X>(&self, what: &str) -> R<X> {
        Err(Bad::Reject(self.i, what.into()))
    }
    fn eat(&mut self, c: char) -> R<()> {
        if self.is(c)? {
            self.i += 1;
            return Ok(());
        }
        self.bad(&format!("{c:?} expected"))
    }
    fn gray(&self) -> R<()> {
        match self.lx.toks[self.i].gray {
            Some(g) => Err(Bad::Gray(g)),
            None => Ok(()),
        }
    }
    /// `,` unless the closing bracket follows
    fn comma(&mut self, close: char) -> R<()> {
        if self.is(close)? {
            return Ok(());
        }
        self.eat(',')
    }
    fn ident(&self) -> R<Option<&'a str>> {
        Ok(match self.peek()? {
            T::Ident(s) => Some(s),
            _ => None,
        })
    }
    fn string(&mut self) -> R<String> {
        match self.peek()? {
            T::Str(s) => {
                self.gray()?;
                self.i += 1;
                Ok(s.clone())
            }
            _ => self.bad("string expected"),
        }
    }
    fn int(&mut self, min: i128, max: i128) -> R<i128> {
        let T::Num(raw) = self.peek()? else { return self.bad("integer expected") };
        self.gray()?;
        if raw.contains(['.', 'e', 'E']) {
            if is_integral(raw) {
                return Err(Bad::Gray("integer in float notation"));
            }
            return self.bad("not an integer");
        }
        let neg = raw.starts_with('-');
        let digits = raw.trim_start_matches(['-', '+']);
        if digits.len() > 38 {
            return self.bad("integer out of range");
        }
        let mut v: i128 = digits.parse().unwrap();
        if neg {
            if v == 0 && min == 0 {
                return Err(Bad::Gray("negative zero"));
            }
            v = -v;
        }
        if v < min || v > max {
            return self.bad("integer out of range");
        }
        self.i += 1;
        Ok(v)
    }
    fn seq(&mut self, open: char, close: char, mut f: impl FnMut(&mut Self) -> R<()>) -> R<()> {
        self.eat(open)?;
        while !self.is(close)? {
            f(self)?;
            self.comma(close)?;
        }
        self.eat(close)
    }
    fn tuple(&mut self, open: char, close: char, types: &[&S]) -> R<Vec<Val>> {
        self.eat(open)?;
        let mut v = vec![];
        for t in types {
            v.push(self.val(t)?);
            self.comma(close)?;
        }
        self.eat(close)?;
        Ok(v)
    }
    fn brackets(&self) -> (char, char) {
        match self.fl {
            Flavor::Json => ('[', ']'),
            Flavor::Ron => ('(', ')'),
        }
    }

    /// A value which is skipped
    fn skip(&mut self, depth: usize) -> R<()> {
        let g = |d: &Self, r: R<()>| match r {
            // the inside of a skipped value need not be well-formed, but it has to end
            Err(Bad::Reject(i, w)) if i < d.lx.toks.len() => {
                let _ = w;
                Err(Bad::Gray("malformed skipped value"))
            }
            r => r,
        };
        let r = self.skip_inner(depth);
        if depth == 0 {
            // the first token of the value has to start one
            if let Err(Bad::Reject(i, w)) = &r {
                if w == "skip: value expected at once" {
                    return Err(Bad::Reject(*i, w.clone()));
                }
            }
            return g(self, r);
        }
        r
    }
    fn skip_inner(&mut self, depth: usize) -> R<()> {
        match self.peek()? {
            T::Str(_) | T::Num(_) => {
                self.gray()?;
                self.i += 1;
                Ok(())
            }
            T::Ident(_) => {
                self.i += 1;
                Ok(())
            }
            T::Punct('[') => self.seq('[', ']', |d| d.skip_inner(depth + 1)),
            T::Punct('{') => self.seq('{', '}', |d| {
                d.string()?;
                d.eat(':')?;
                d.skip_inner(depth + 1)
            }),
            _ if depth == 0 => self.bad("skip: value expected at once"),
            _ => self.bad("value expected"),
        }
    }

    fn fields(&mut self, fs: &[FieldS]) -> R<Vec<Val>> {
        let json = self.fl == Flavor::Json;
        let (open, close) = if json { ('{', '}') } else { ('(', ')') };
        let mut got: Vec<Option<Val>> = vec![None; fs.len()];
        self.eat(open)?;
        while !self.is(close)? {
            let key_at = self.i;
            let key = if json {
                self.string()?
            } else {
                match self.ident()? {
                    Some("true" | "false") => return self.bad("field expected"),
                    Some(k) => {
                        self.i += 1;
                        k.to_string()
                    }
                    None => return self.bad("field expected"),
                }
            };
            let f = fs.iter().position(|f| !f.skip && if json { f.json == key } else { f.ron == key });
            match f {
                None if !json => return Err(Bad::Reject(key_at, "unknown field".into())),
                None => {
                    self.eat(':')?;
                    self.skip(0)?
                }
                Some(k) => {
                    self.eat(':')?;
                    if got[k].is_some() {
                        return Err(Bad::Gray("duplicate key"));
                    }
                    got[k] = Some(self.field_val(&fs[k])?);
                }
            }
            self.comma(close)?;
        }
        let mut out = vec![];
        for (f, g) in fs.iter().zip(got) {
            out.push(match g {
                Some(v) => v,
                None if f.skip => f.skip_val.clone().unwrap_or_else(|| f.ty.zero()),
                None => match &f.missing {
                    Some(v) => v.clone(),
                    None => return self.bad("missing field"),
                },
            });
        }
        self.i += 1;
        Ok(out)
    }
    fn field_val(&mut self, f: &FieldS) -> R<Val> {
        match &f.proxy {
            Some(p) if self.fl == Flavor::Json => Ok((p.from)(&self.val(&p.ty)?)),
            _ => self.val(&f.ty),
        }
    }
    fn positional(&mut self, fs: &[FieldS], lone_comma_gray: bool) -> R<Vec<Val>> {
        let (open, close) = self.brackets();
        self.eat(open)?;
        let mut v = vec![];
        for f in fs {
            if self.fl == Flavor::Ron && f.skip {
                v.push(f.skip_val.clone().unwrap_or_else(|| f.ty.zero()));
                continue;
            }
            v.push(self.field_val(f)?);
            if lone_comma_gray && fs.len() == 1 && self.fl == Flavor::Json && self.is(',')? {
                return Err(Bad::Gray("comma in a newtype"));
            }
            self.comma(close)?;
        }
        self.eat(close)?;
        Ok(v)
    }

    pub fn val(&mut self, s: &S) -> R<Val> {
        let json = self.fl == Flavor::Json;
        Ok(match s {
            S::Lazy(f) => self.val(&f())?,
            S::Unit if json => match self.ident()? {
                Some("null") => {
                    self.i += 1;
                    Val::Unit
                }
                _ => return self.bad("null expected"),
            },
            S::Unit => {
                self.eat('(')?;
                self.eat(')')?;
                Val::Unit
            }
            S::Bool => match self.peek()? {
                T::Ident(s) if s == "true" || s == "false" => {
                    self.i += 1;
                    Val::Bool(s == "true")
                }
                T::Num(_) if !json => return Err(Bad::Gray("number as bool")),
                _ => return self.bad("bool expected"),
            },
            S::U(n) => Val::U(self.int(0, ((1u128 << (8 * *n as u32)) - 1) as i128)? as u128),
            S::I(n) => {
                let m = (1i128 << (8 * *n as u32 - 1)) - 1;
                Val::I(self.int(-m - 1, m)?)
            }
            S::F32 | S::F64 => {
                let T::Num(raw) = self.peek()? else { return self.bad("number expected") };
                self.gray()?;
                let v = if let S::F32 = s {
                    let x: f32 = raw.parse().unwrap();
                    if x.is_infinite() {
                        return Err(Bad::Gray("float overflow"));
                    }
                    Val::F32(x.to_bits())
                } else {
                    let x: f64 = raw.parse().unwrap();
                    if x.is_infinite() {
                        return Err(Bad::Gray("float overflow"));
                    }
                    Val::F64(x.to_bits())
                };
                self.i += 1;
                v
            }
            S::Str => Val::Str(self.string()?),
            S::Dur => {
                let (mut secs, mut nanos) = (None, None);
                let mut gray = None;
                self.eat('{')?;
                while !self.is('}')? {
                    match &self.string()?[..] {
                        "secs" => {
                            self.eat(':')?;
                            if secs.is_some() {
                                return Err(Bad::Gray("duplicate key"));
                            }
                            secs = Some(self.int(0, u64::MAX as i128)?);
                        }
                        "nanos" => {
                            self.eat(':')?;
                            if nanos.is_some() {
                                return Err(Bad::Gray("duplicate key"));
                            }
                            let n = self.int(0, u32::MAX as i128)?;
                            if n == 1_000_000_000 {
                                gray = Some("nanos of exactly one second");
                            }
                            nanos = Some((n, self.i - 1));
                        }
                        _ => return Err(Bad::Gray("unknown key in a duration")),
                    }
                    self.comma('}')?;
                }
                let Some(secs) = secs else { return self.bad("missing secs") };
                if let Some(g) = gray {
                    return Err(Bad::Gray(g));
                }
                if nanos.is_some_and(|n| n.0 > 1_000_000_000) {
                    return self.bad("nanos out of range");
                }
                self.i += 1;
                Val::Dur(secs as u64, nanos.map_or(0, |n| n.0) as u32)
            }
            S::Time => {
                match self.ident()? {
                    Some("null") if json => return Err(Bad::Gray("absent time")),
                    Some("None") if !json => return Err(Bad::Gray("absent time")),
                    _ => {}
                }
                match self.val(&S::Dur)? {
                    Val::Dur(a, b) if a <= i64::MAX as u64 => Val::Time(a, b),
                    _ => return Err(Bad::Reject(self.i - 1, "time out of range".into())),
                }
            }
            S::Opt(t) => {
                match self.ident()? {
                    Some("null") if json => {
                        self.i += 1;
                        return Ok(Val::none());
                    }
                    Some("None") if !json => {
                        self.i += 1;
                        return Ok(Val::none());
                    }
                    Some("Some") if !json => return Err(Bad::Gray("explicit Some")),
                    _ => {}
                }
                Val::some(self.val(t)?)
            }
            S::Seq(t) => {
                let mut v = vec![];
                self.seq('[', ']', |d| Ok(v.push(d.val(t)?)))?;
                Val::Seq(v)
            }
            S::Set(t, _) => {
                let mut v = vec![];
                self.seq('[', ']', |d| Ok(v.push(d.val(t)?)))?;
                v.sort();
                if v.windows(2).any(|w| w[0] == w[1]) {
                    return Err(Bad::Gray("duplicate set items"));
                }
                Val::Set(v)
            }
            S::Slice(_) => panic!("slices are not read"),
            S::Map(k, t, _) => {
                let mut v = vec![];
                self.seq('{', '}', |d| {
                    let a = d.val(k)?;
                    d.eat(':')?;
                    let b = d.val(t)?;
                    Ok(v.push((a, b)))
                })?;
                v.sort();
                if v.windows(2).any(|w| w[0].0 == w[1].0) {
                    return Err(Bad::Gray("duplicate keys"));
                }
                Val::Map(v)
            }
            S::Arr(n, t) => {
                let (o, c) = self.brackets();
                let ts: Vec<&S> = (0..*n).map(|_| &**t).collect();
                Val::Tup(self.tuple(o, c, &ts)?)
            }
            S::Tup(ts) => {
                let (o, c) = self.brackets();
                let ts: Vec<&S> = ts.iter().map(|t| &**t).collect();
                Val::Tup(self.tuple(o, c, &ts)?)
            }
            S::Struct(st) => {
                if let (Some(p), true) = (&st.proxy, json) {
                    return Ok((p.from)(&self.val(&p.ty)?));
                }
                if !json && self.ident()?.is_some() {
                    return Err(Bad::Gray("struct name"));
                }
                match st.kind {
                    Kind::Tuple if json && st.transparent && st.fields.len() == 1 => {
                        Val::Tup(vec![self.field_val(&st.fields[0])?])
                    }
                    Kind::Tuple => Val::Tup(self.positional(&st.fields, true)?),
                    _ => Val::Tup(self.fields(&st.fields)?),
                }
            }
            S::Enum(e) => {
                if let (Some(p), true) = (&e.proxy, json) {
                    return Ok((p.from)(&self.val(&p.ty)?));
                }
                if json {
                    if let T::Str(_) = self.peek()? {
                        let name = self.string()?;
                        return match e.variants.iter().position(|v| v.kind == Kind::Unit && v.json == name) {
                            Some(k) => Ok(Val::Enum(k, vec![])),
                            None => Err(Bad::Reject(self.i - 1, "unknown variant".into())),
                        };
                    }
                    if !self.is('{')? {
                        return self.bad("enum expected");
                    }
                    if e.variants.iter().all(|v| v.kind == Kind::Unit) {
                        return self.bad("string expected");
                    }
                    self.i += 1;
                    let name = self.string()?;
                    let Some(k) = e.variants.iter().position(|v| v.kind != Kind::Unit && v.json == name) else {
                        return Err(Bad::Reject(self.i - 1, "unknown variant".into()));
                    };
                    self.eat(':')?;
                    let v = self.variant(&e.variants[k])?;
                    if self.is(',')? {
                        return Err(Bad::Gray("comma behind a variant"));
                    }
                    self.eat('}')?;
                    Val::Enum(k, v)
                } else {
                    let Some(name) = self.ident()? else { return self.bad("variant expected") };
                    let Some(k) = e.variants.iter().position(|v| v.name == name) else {
                        return self.bad("unknown variant");
                    };
                    self.i += 1;
                    let v = self.variant(&e.variants[k])?;
                    Val::Enum(k, v)
                }
            }
        })
    }
    fn variant(&mut self, v: &VariantS) -> R<Vec<Val>> {
        match v.kind {
            Kind::Unit => Ok(vec![]),
            Kind::Tuple => self.positional(&v.fields, false),
            Kind::Named => self.fields(&v.fields),
        }
    }
}

/// Whether a decimal literal with fraction or exponent has an integral value.
fn is_integral(raw: &str) -> bool {
    let raw = raw.trim_start_matches(['-', '+']);
    let (m, e) = match raw.find(['e', 'E']) {
        Some(k) => (&raw[..k], &raw[k + 1..]),
        None => (raw, "0"),
    };
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    let mut digits = format!("{ip}{fp}");
    while digits.ends_with('0') {
        digits.pop();
    }
    if digits.is_empty() {
        return true;
    }
    let frac = digits.len() as i64 - ip.len() as i64;
    let Ok(e) = e.parse::<i64>() else { return !e.starts_with('-') };
    e >= frac
}

// ----------------------------------------------------------------- writing

/// Where spellings come from.
pub trait Choose {
    fn alt(&mut self, n: usize) -> usize;
}
/// The plainest spelling.
pub struct Plain;
impl Choose for Plain {
    fn alt(&mut self, _: usize) -> usize {
        0
    }
}
impl Choose for crate::engine::Ctx {
    fn alt(&mut self, n: usize) -> usize {
        self.dev(n)
    }
}

pub const UNKNOWN: &[&str] = &[
    "1",
    "\"x\"",
    "null",
    "true",
    "false",
    "-1.5e+3",
    "{ }",
    "[ ]",
    "{ \"a\" : [ 1 , { \"b\" : \"]}\" } ] , \"c\" : null }",
    "[ [ ] , [ { } ] , \"[{\" , [ [ 0 ] ] ]",
    "\"\\\"\\u005d\"",
    "18446744073709551616",
];
pub const UNKNOWN_KEYS: &[&str] = &["zz_unknown", "", "x\"y\\", "Ä"];

/// Split so that single spaces separate tokens.
fn push_raw(o: &mut Vec<String>, raw: &str) {
    o.extend(raw.split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()));
}

pub fn spell_str(s: &str, fl: Flavor, ch: &mut dyn Choose) -> String {
    let u16s = |c: char, up: bool| {
        let mut b = [0u16; 2];
        c.encode_utf16(&mut b)
            .iter()
            .map(|x| if up { format!("\\u{x:04X}") } else { format!("\\u{x:04x}") })
            .collect::<String>()
    };
    let mut o = String::from("\"");
    for (n, c) in s.chars().enumerate() {
        let mut alts = vec![];
        match c {
            '"' => alts.push("\\\"".to_string()),
            '\\' => alts.push("\\\\".to_string()),
            '\u{8}' => alts.push("\\b".into()),
            '\u{c}' => alts.push("\\f".into()),
            '\n' => alts.push("\\n".into()),
            '\r' => alts.push("\\r".into()),
            '\t' => alts.push("\\t".into()),
            c if (c as u32) < 0x20 => {}
            c => alts.push(c.to_string()),
        }
        if c == '/' {
            alts.push("\\/".into());
        }
        if c == '\0' && fl == Flavor::Ron {
            alts.push("\\0".into());
        }
        alts.push(u16s(c, false));
        if u16s(c, true) != u16s(c, false) {
            alts.push(u16s(c, true));
        }
        if fl == Flavor::Ron && (c as u32) < 0x20 && c != '\0' {
            alts.push(c.to_string());
        }
        let k = if n < 4 { ch.alt(alts.len()) } else { 0 };
        o += &alts[k];
    }
    o.push('"');
    o
}

/// Notations of one number, the first being the plainest.
pub fn float_spellings(v: &Val, fl: Flavor) -> Vec<String> {
    let (plain, exp, neg) = match v {
        Val::F32(b) => {
            let x = f32::from_bits(*b);
            (format!("{x:?}"), format!("{x:e}"), x.is_sign_negative())
        }
        Val::F64(b) => {
            let x = f64::from_bits(*b);
            (format!("{x:?}"), format!("{x:e}"), x.is_sign_negative())
        }
        _ => panic!(),
    };
    let same = |s: &str| match v {
        Val::F32(b) => s.parse::<f32>().is_ok_and(|x| x.to_bits() == *b),
        Val::F64(b) => s.parse::<f64>().is_ok_and(|x| x.to_bits() == *b),
        _ => false,
    };
    let mut o = vec![plain.clone(), exp.clone(), exp.replace('e', "E")];
    if !exp.contains("e-") {
        o.push(exp.replace('e', "e+"));
        o.push(exp.replace('e', "E+"));
    }
    let (m, e) = exp.split_once('e').unwrap();
    o.push(format!("{m}e{}", if let Some(x) = e.strip_prefix('-') { format!("-00{x}") } else { format!("00{e}") }));
    // exact decimal expansion, integer form included
    let full = match v {
        Val::F32(b) => format!("{}", f32::from_bits(*b)),
        Val::F64(b) => format!("{}", f64::from_bits(*b)),
        _ => panic!(),
    };
    if full.len() < 400 {
        o.push(full.clone());
        if full.contains('.') {
            o.push(format!("{full}000"));
            let digits = full.split_once('.').unwrap().1.len();
            o.push(format!("{}e-{digits}", strip_zeros(&full.replace('.', ""))));
        } else {
            o.push(format!("{full}.0"));
            o.push(format!("{full}e0"));
        }
    }
    if fl == Flavor::Ron {
        if !neg {
            o.push(format!("+{plain}"));
        }
        if !full.contains('.') {
            o.push(format!("{full}."));
        }
        if let Some(r) = full.strip_prefix("0.") {
            o.push(format!(".{r}"));
        }
        if let Some(r) = full.strip_prefix("-0.") {
            o.push(format!("-.{r}"));
        }
    }
    let mut out: Vec<String> = vec![];
    for s in o {
        if same(&s) && !out.contains(&s) {
            out.push(s)
        }
    }
    out
}
fn strip_zeros(s: &str) -> String {
    let (sign, d) = match s.strip_prefix('-') {
        Some(d) => ("-", d),
        None => ("", s),
    };
    let d = d.trim_start_matches('0');
    format!("{sign}{}", if d.is_empty() { "0" } else { d })
}

/// The tokens of a document denoting `v`.
pub struct Writer<'a> {
    pub fl: Flavor,
    pub ch: &'a mut dyn Choose,
    pub out: Vec<String>,
    pub unknown: bool,
}

pub fn tokens(s: &S, v: &Val, fl: Flavor, ch: &mut dyn Choose) -> Vec<String> {
    let mut w = Writer { fl, ch, out: vec![], unknown: true };
    w.val(s, v);
    w.out
}

/// The plain text of a value.
pub fn plain(s: &S, v: &Val, fl: Flavor) -> String {
    tokens(s, v, fl, &mut Plain).concat()
}

pub const GAPS: &[&str] = &[
    "",
    " ",
    "\n",
    "\t",
    "\r\n",
    "//\n",
    "// \"]})\n",
    "/**/",
    "/***/",
    "/* * / // \" ]}) */",
    " /*a*/ /*b*//*c*/ //d\r\n\t",
    "/*\n*\n**/",
    "/*/*/",
];

/// Put whitespace and comments between the tokens of a document.
pub fn join(toks: &[String], ch: &mut dyn Choose) -> String {
    let mut o = String::new();
    for t in toks {
        o += GAPS[ch.alt(GAPS.len())];
        o += t;
    }
    o += GAPS[ch.alt(GAPS.len())];
    o
}

impl<'a> Writer<'a> {
    fn p(&mut self, s: &str) {
        self.out.push(s.to_string())
    }
    fn str(&mut self, s: &str) {
        let t = spell_str(s, self.fl, self.ch);
        self.out.push(t)
    }
    /// Separated items, with or without a comma behind the last one.
    fn list(&mut self, n: usize, trailing: bool, mut f: impl FnMut(&mut Self, usize)) {
        for i in 0..n {
            f(self, i);
            if i + 1 < n || trailing && self.ch.alt(2) == 1 {
                self.p(",");
            }
        }
    }
    fn brackets(&self) -> (&'static str, &'static str) {
        match self.fl {
            Flavor::Json => ("[", "]"),
            Flavor::Ron => ("(", ")"),
        }
    }
    fn field_val(&mut self, f: &FieldS, v: &Val) {
        match &f.proxy {
            Some(p) if self.fl == Flavor::Json => self.val(&p.ty, &(p.to)(v)),
            _ => self.val(&f.ty, v),
        }
    }
    fn fields(&mut self, fs: &[FieldS], vs: &[Val]) {
        let json = self.fl == Flavor::Json;
        let (o, c) = if json { ("{", "}") } else { ("(", ")") };
        self.p(o);
        // which keys appear
        let mut keys: Vec<isize> = vec![];
        for (i, (f, v)) in fs.iter().zip(vs).enumerate() {
            if f.skip || v.is_none() && f.proxy.is_some() && json {
                // a proxy is written for what an Option holds only
                continue;
            }
            let absent = if f.missing.as_ref() == Some(v) {
                // a null is as good as nothing for None
                let k = self.ch.alt(2);
                if v.is_none() && f.proxy.is_none() {
                    k == 0
                } else {
                    k == 1
                }
            } else {
                false
            };
            if !absent {
                keys.push(i as isize);
            }
        }
        // in which order
        if keys.len() > 1 {
            match self.ch.alt(if keys.len() > 2 { 4 } else { 2 }) {
                0 => {}
                1 => keys.reverse(),
                2 => keys.rotate_left(1),
                _ => keys.rotate_right(1),
            }
        }
        // unknown keys
        if json && self.unknown {
            let mut with = vec![];
            for i in 0..=keys.len() {
                let k = self.ch.alt(1 + UNKNOWN.len() + UNKNOWN_KEYS.len() - 1);
                if k > 0 {
                    with.push(-(k as isize));
                }
                if i < keys.len() {
                    with.push(keys[i]);
                }
            }
            keys = with;
        }
        let n = keys.len();
        self.list(n, true, |w, i| {
            if keys[i] < 0 {
                let k = (-keys[i] - 1) as usize;
                let (key, val) =
                    if k < UNKNOWN.len() { (UNKNOWN_KEYS[0], UNKNOWN[k]) } else { (UNKNOWN_KEYS[k - UNKNOWN.len() + 1], "7") };
                w.str(key);
                w.p(":");
                push_raw(&mut w.out, val);
            } else {
                let f = &fs[keys[i] as usize];
                if json {
                    w.str(&f.json);
                } else {
                    w.p(&f.ron);
                }
                w.p(":");
                w.field_val(f, &vs[keys[i] as usize]);
            }
        });
        self.p(c);
    }
    fn positional(&mut self, fs: &[FieldS], vs: &[Val], trailing: bool) {
        let (o, c) = self.brackets();
        self.p(o);
        let ks: Vec<usize> = (0..fs.len()).filter(|k| self.fl == Flavor::Json || !fs[*k].skip).collect();
        let n = ks.len();
        self.list(n, trailing, |w, i| w.field_val(&fs[ks[i]], &vs[ks[i]]));
        self.p(c);
    }
    pub fn val(&mut self, s: &S, v: &Val) {
        let json = self.fl == Flavor::Json;
        match (s, v) {
            (S::Lazy(f), v) => self.val(&f(), v),
            (S::Unit, _) if json => self.p("null"),
            (S::Unit, _) => {
                self.p("(");
                self.p(")");
            }
            (S::Bool, Val::Bool(b)) => self.p(if *b { "true" } else { "false" }),
            (S::U(_), Val::U(x)) => {
                if !json && self.ch.alt(2) == 1 {
                    return self.p(&format!("+{x}"));
                }
                self.p(&x.to_string())
            }
            (S::I(_), Val::I(x)) => {
                if !json && *x >= 0 && self.ch.alt(2) == 1 {
                    return self.p(&format!("+{x}"));
                }
                self.p(&x.to_string())
            }
            (S::F32 | S::F64, v) => {
                let alts = float_spellings(v, self.fl);
                let k = self.ch.alt(alts.len());
                self.p(&alts[k]);
            }
            (S::Str, Val::Str(x)) => self.str(x),
            (S::Dur, Val::Dur(a, b)) => {
                self.p("{");
                let order = self.ch.alt(2);
                let nanos = *b != 0 || self.ch.alt(2) == 1;
                let mut parts = vec![("secs", a.to_string())];
                if nanos {
                    parts.push(("nanos", b.to_string()));
                }
                if order == 1 {
                    parts.reverse();
                }
                let n = parts.len();
                self.list(n, true, |w, i| {
                    w.str(parts[i].0);
                    w.p(":");
                    w.p(&parts[i].1);
                });
                self.p("}");
            }
            (S::Time, Val::Time(a, b)) => self.val(&S::Dur, &Val::Dur(*a, *b)),
            (S::Opt(_), Val::Opt(None)) => self.p(if json { "null" } else { "None" }),
            (S::Opt(t), Val::Opt(Some(x))) => self.val(t, x),
            (S::Seq(t), Val::Seq(x)) | (S::Set(t, _), Val::Set(x)) => {
                self.p("[");
                self.list(x.len(), true, |w, i| w.val(t, &x[i]));
                self.p("]");
            }
            (S::Map(k, t, _), Val::Map(x)) => {
                self.p("{");
                self.list(x.len(), true, |w, i| {
                    w.val(k, &x[i].0);
                    w.p(":");
                    w.val(t, &x[i].1);
                });
                self.p("}");
            }
            (S::Arr(_, t), Val::Tup(x)) => {
                let (o, c) = self.brackets();
                self.p(o);
                self.list(x.len(), true, |w, i| w.val(t, &x[i]));
                self.p(c);
            }
            (S::Tup(ts), Val::Tup(x)) => {
                let (o, c) = self.brackets();
                self.p(o);
                self.list(x.len(), true, |w, i| w.val(&ts[i], &x[i]));
                self.p(c);
            }
            (S::Struct(st), v) => {
                if let (Some(p), true) = (&st.proxy, json) {
                    return self.val(&p.ty, &(p.to)(v));
                }
                match st.kind {
                    Kind::Tuple if json && st.transparent && st.fields.len() == 1 => {
                        self.field_val(&st.fields[0], &v.items()[0])
                    }
                    Kind::Tuple => self.positional(&st.fields, v.items(), !json || st.fields.len() > 1),
                    _ => self.fields(&st.fields, v.items()),
                }
            }
            (S::Enum(e), v) => {
                if let (Some(p), true) = (&e.proxy, json) {
                    return self.val(&p.ty, &(p.to)(v));
                }
                let Val::Enum(k, x) = v else { panic!() };
                let va = &e.variants[*k];
                if json {
                    if va.kind == Kind::Unit {
                        return self.str(&va.json);
                    }
                    self.p("{");
                    self.str(&va.json);
                    self.p(":");
                } else {
                    self.p(&va.name);
                }
                match va.kind {
                    Kind::Unit => {}
                    Kind::Tuple => self.positional(&va.fields, x, true),
                    Kind::Named => self.fields(&va.fields, x),
                }
                if json {
                    self.p("}");
                }
            }
            _ => panic!("value does not fit the schema: {v:?}"),
        }
    }
}
