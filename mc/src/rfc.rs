//! A strict RFC 8259 parser, and what its documents denote.

use crate::schema::*;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

pub fn parse(text: &str) -> Result<J, String> {
    let mut p = P { b: text.as_bytes(), i: 0 };
    p.ws();
    let v = p.val(0)?;
    p.ws();
    if p.i != p.b.len() {
        return p.err("text behind the value");
    }
    Ok(v)
}

impl P<'_> {
    fn err<X>(&self, w: &str) -> Result<X, String> {
        Err(format!("{w} at byte {}", self.i))
    }
    fn at(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.at() {
            self.i += 1
        }
    }
    fn lit(&mut self, s: &str, j: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            return Ok(j);
        }
        self.err("bad literal")
    }
    fn val(&mut self, depth: usize) -> Result<J, String> {
        if depth > 2000 {
            return self.err("too deep for this parser");
        }
        match self.at() {
            None => self.err("value expected"),
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.at() == Some(b']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.val(depth + 1)?);
                    self.ws();
                    match self.at() {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return self.err("comma or ] expected"),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.at() == Some(b'}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.at() != Some(b'"') {
                        return self.err("key expected");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.at() != Some(b':') {
                        return self.err("colon expected");
                    }
                    self.i += 1;
                    self.ws();
                    let x = self.val(depth + 1)?;
                    if v.iter().any(|(a, _)| *a == k) {
                        return self.err("key written twice");
                    }
                    v.push((k, x));
                    self.ws();
                    match self.at() {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return self.err("comma or } expected"),
                    }
                }
            }
            Some(_) => self.num(),
        }
    }
    fn digits(&mut self) -> usize {
        let s = self.i;
        while let Some(b'0'..=b'9') = self.at() {
            self.i += 1
        }
        self.i - s
    }
    fn num(&mut self) -> Result<J, String> {
        let s = self.i;
        if self.at() == Some(b'-') {
            self.i += 1
        }
        match self.at() {
            Some(b'0') => self.i += 1,
            Some(b'1'..=b'9') => {
                self.digits();
            }
            _ => return self.err("digit expected"),
        }
        if self.at() == Some(b'.') {
            self.i += 1;
            if self.digits() == 0 {
                return self.err("digit expected");
            }
        }
        if let Some(b'e' | b'E') = self.at() {
            self.i += 1;
            if let Some(b'+' | b'-') = self.at() {
                self.i += 1
            }
            if self.digits() == 0 {
                return self.err("digit expected");
            }
        }
        Ok(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
    }
    fn hex(&mut self) -> Result<u32, String> {
        let mut v = 0;
        for _ in 0..4 {
            match self.at().and_then(|c| (c as char).to_digit(16)) {
                Some(d) => v = v * 16 + d,
                None => return self.err("hex digit expected"),
            }
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        let push = |c: char, o: &mut Vec<u8>| {
            let mut b = [0; 4];
            o.extend(c.encode_utf8(&mut b).bytes())
        };
        loop {
            match self.at() {
                None => return self.err("unterminated string"),
                Some(b'"') => {
                    self.i += 1;
                    return Ok(String::from_utf8(o).unwrap());
                }
                Some(0..=0x1f) => return self.err("control character in a string"),
                Some(b'\\') => {
                    self.i += 1;
                    let c = self.at();
                    self.i += 1;
                    match c {
                        Some(b'"') => o.push(b'"'),
                        Some(b'\\') => o.push(b'\\'),
                        Some(b'/') => o.push(b'/'),
                        Some(b'b') => o.push(8),
                        Some(b'f') => o.push(12),
                        Some(b'n') => o.push(10),
                        Some(b'r') => o.push(13),
                        Some(b't') => o.push(9),
                        Some(b'u') => {
                            let a = self.hex()?;
                            let c = if (0xd800..0xdc00).contains(&a) {
                                if !self.b[self.i..].starts_with(b"\\u") {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let b = self.hex()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return self.err("lone surrogate");
                                }
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00))
                            } else {
                                char::from_u32(a)
                            };
                            match c {
                                Some(c) => push(c, &mut o),
                                None => return self.err("lone surrogate"),
                            }
                        }
                        _ => return self.err("bad escape"),
                    }
                }
                Some(c) => {
                    o.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

/// Whether the text of maps with such keys is JSON at all.
pub fn writes_json(s: &S) -> bool {
    !s.any(0, &|s| match s {
        S::Map(k, _, _) => !string_key(&k.resolve()),
        _ => false,
    })
}
fn string_key(k: &S) -> bool {
    match k {
        S::Str => true,
        S::Enum(e) => e.proxy.is_none() && e.variants.iter().all(|v| v.kind == Kind::Unit),
        S::Struct(st) => st.proxy.is_none() && st.transparent && st.fields.len() == 1 && string_key(&st.fields[0].ty.resolve()),
        _ => false,
    }
}
pub fn finite(v: &Val) -> bool {
    match v {
        Val::F32(b) => f32::from_bits(*b).is_finite(),
        Val::F64(b) => f64::from_bits(*b).is_finite(),
        Val::Opt(x) => x.as_ref().is_none_or(|x| finite(x)),
        Val::Seq(x) | Val::Set(x) | Val::Tup(x) | Val::Enum(_, x) => x.iter().all(finite),
        Val::Map(x) => x.iter().all(|(a, b)| finite(a) && finite(b)),
        _ => true,
    }
}

/// How strictly the shape of objects is judged.
#[derive(Clone, Copy)]
pub struct Strict {
    /// fields in declaration order
    pub order: bool,
    /// null exactly where asked for
    pub nulls: bool,
}

/// Whether a document denotes a value; Err says where it does not.
pub fn check(s: &S, v: &Val, j: &J, st: Strict) -> Result<(), String> {
    let no = |w: &str| Err(format!("{w}: value {v:?}, text {j:?}"));
    match (s, v, j) {
        (S::Lazy(f), v, j) => check(&f(), v, j, st),
        (S::Unit, _, J::Null) => Ok(()),
        (S::Bool, Val::Bool(a), J::Bool(b)) if a == b => Ok(()),
        (S::U(_), Val::U(x), J::Num(n)) if *n == x.to_string() => Ok(()),
        (S::I(_), Val::I(x), J::Num(n)) if *n == x.to_string() => Ok(()),
        (S::F32, Val::F32(x), J::Num(n)) if n.parse::<f32>().unwrap().to_bits() == *x => Ok(()),
        (S::F64, Val::F64(x), J::Num(n)) if n.parse::<f64>().unwrap().to_bits() == *x => Ok(()),
        (S::Str, Val::Str(a), J::Str(b)) if a == b => Ok(()),
        (S::Dur, Val::Dur(a, b), J::Obj(o)) => {
            let get = |k: &str| o.iter().find(|x| x.0 == k).map(|x| x.1.clone());
            let secs = get("secs") == Some(J::Num(a.to_string()));
            let nanos = match get("nanos") {
                None => *b == 0,
                Some(x) => x == J::Num(b.to_string()),
            };
            if secs && nanos && o.iter().all(|x| x.0 == "secs" || x.0 == "nanos") {
                Ok(())
            } else {
                no("duration")
            }
        }
        (S::Time, Val::Time(a, b), j) => check(&S::Dur, &Val::Dur(*a, *b), j, st),
        (S::Opt(_), Val::Opt(None), J::Null) => Ok(()),
        (S::Opt(t), Val::Opt(Some(x)), j) => check(t, x, j, st),
        (S::Seq(t), Val::Seq(x), J::Arr(a)) | (S::Slice(t), Val::Seq(x), J::Arr(a)) => {
            if a.len() != x.len() {
                return no("length");
            }
            x.iter().zip(a).try_for_each(|(x, j)| check(t, x, j, st))
        }
        (S::Set(t, _), Val::Set(x), J::Arr(a)) => {
            if a.len() != x.len() {
                return no("length");
            }
            // any order
            for x in x {
                if !a.iter().any(|j| check(t, x, j, st).is_ok()) {
                    return no("set item missing");
                }
            }
            Ok(())
        }
        (S::Map(k, t, _), Val::Map(x), J::Obj(o)) => {
            if o.len() != x.len() {
                return no("length");
            }
            for (a, b) in x {
                match o.iter().find(|(n, _)| check(k, a, &J::Str(n.clone()), st).is_ok()) {
                    Some((_, j)) => check(t, b, j, st)?,
                    None => return no("key missing"),
                }
            }
            Ok(())
        }
        (S::Arr(_, t), Val::Tup(x), J::Arr(a)) => {
            if a.len() != x.len() {
                return no("length");
            }
            x.iter().zip(a).try_for_each(|(x, j)| check(t, x, j, st))
        }
        (S::Tup(ts), Val::Tup(x), J::Arr(a)) => {
            if a.len() != x.len() {
                return no("length");
            }
            ts.iter().zip(x).zip(a).try_for_each(|((t, x), j)| check(t, x, j, st))
        }
        (S::Struct(d), v, j) => {
            if let Some(p) = &d.proxy {
                return check(&p.ty, &(p.to)(v), j, st);
            }
            match (d.kind, j) {
                (Kind::Tuple, j) if d.transparent && d.fields.len() == 1 => field(&d.fields[0], &v.items()[0], j, st),
                (Kind::Tuple, J::Arr(a)) => positional(&d.fields, v.items(), a, st),
                (Kind::Unit, J::Obj(o)) if o.is_empty() => Ok(()),
                (Kind::Named, J::Obj(o)) => fields(&d.fields, v.items(), o, st),
                _ => no("struct"),
            }
        }
        (S::Enum(e), v, j) => {
            if let Some(p) = &e.proxy {
                return check(&p.ty, &(p.to)(v), j, st);
            }
            let Val::Enum(k, x) = v else { return no("enum") };
            let va = &e.variants[*k];
            match (va.kind, j) {
                (Kind::Unit, J::Str(s)) if *s == va.json => Ok(()),
                (Kind::Tuple, J::Obj(o)) if o.len() == 1 && o[0].0 == va.json => match &o[0].1 {
                    J::Arr(a) => positional(&va.fields, x, a, st),
                    _ => no("tuple variant"),
                },
                (Kind::Named, J::Obj(o)) if o.len() == 1 && o[0].0 == va.json => match &o[0].1 {
                    J::Obj(o) => fields(&va.fields, x, o, st),
                    _ => no("struct variant"),
                },
                _ => no("variant"),
            }
        }
        _ => no("mismatch"),
    }
}
fn field(f: &FieldS, v: &Val, j: &J, st: Strict) -> Result<(), String> {
    match &f.proxy {
        Some(p) => check(&p.ty, &(p.to)(v), j, st),
        None => check(&f.ty, v, j, st),
    }
}
fn positional(fs: &[FieldS], x: &[Val], a: &[J], st: Strict) -> Result<(), String> {
    if a.len() != fs.len() {
        return Err(format!("{} items for {} fields", a.len(), fs.len()));
    }
    fs.iter().zip(x).zip(a).try_for_each(|((f, x), j)| field(f, x, j, st))
}
fn fields(fs: &[FieldS], x: &[Val], o: &[(String, J)], st: Strict) -> Result<(), String> {
    let mut used = 0;
    let mut last = None;
    for (f, v) in fs.iter().zip(x) {
        if f.skip {
            if let Some(k) = o.iter().find(|(k, _)| *k == f.json) {
                if !fs.iter().any(|g| !g.skip && g.json == f.json) {
                    return Err(format!("skipped field {} is written: {k:?}", f.json));
                }
            }
            continue;
        }
        let pos = o.iter().position(|(k, _)| *k == f.json);
        let Some(pos) = pos else {
            if v.is_none() && f.ty.resolve().is_opt() && !(st.nulls && f.null) {
                continue;
            }
            return Err(format!("field {} is missing", f.json));
        };
        if st.nulls && v.is_none() && !f.null && f.proxy.is_none() {
            return Err(format!("field {} is written although it is None", f.json));
        }
        if st.order && last.is_some_and(|l| l > pos) {
            return Err(format!("field {} is out of order", f.json));
        }
        last = Some(pos);
        used += 1;
        field(f, v, &o[pos].1, st).map_err(|e| format!("{}: {e}", f.json))?;
    }
    if used != o.len() {
        return Err(format!("keys which are no fields: {:?}", o.iter().map(|x| &x.0).collect::<Vec<_>>()));
    }
    Ok(())
}
