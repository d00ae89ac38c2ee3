//! One fault in an otherwise valid input, and the reason which is given: C28.

use super::*;
use crate::binref::encode;
use crate::engine::*;
use crate::gen::*;
use crate::lexref::Flavor;
use crate::schema::*;
use crate::textref;
use crate::types::*;
use nanoserde::*;
use std::sync::Arc;

/// Names which differ from those of the fields and variants.
#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, PartialEq, Debug, Clone)]
pub struct Ren {
    #[nserde(rename = "first")]
    pub a: u8,
    pub first_: String,
    #[nserde(default)]
    pub b: u16,
    #[nserde(skip)]
    pub c: u8,
    #[nserde(rename = "last")]
    pub d: Pt,
}
impl Model for Ren {
    fn schema() -> S {
        let f = |n: &str, s: S| FieldS::new(n, s);
        S::Struct(Arc::new(StructS {
            name: "Ren".into(),
            kind: Kind::Named,
            fields: vec![
                f("a", u8::schema()).rename("first"),
                f("first_", String::schema()),
                f("b", u16::schema()).missing(Val::U(0)),
                f("c", u8::schema()).skipped(Val::U(0)),
                f("d", Pt::schema()).rename("last"),
            ],
            transparent: false,
            proxy: None,
        }))
    }
    fn to_val(&self) -> Val {
        Val::Tup(vec![self.a.to_val(), self.first_.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        let i = v.items();
        Ren {
            a: Model::from_val(&i[0]),
            first_: Model::from_val(&i[1]),
            b: Model::from_val(&i[2]),
            c: Model::from_val(&i[3]),
            d: Model::from_val(&i[4]),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Want {
    /// a key which is required is missing
    Missing(String),
    /// an unknown variant
    Variant(String),
    /// an unknown field
    Key(String),
    /// a number outside of the range
    Range(String),
    /// a token which cannot stand there
    Token(&'static str),
}
use Want::*;

/// Writes a document with the fault number `at`.
struct Faulty {
    fl: Flavor,
    out: String,
    site: usize,
    at: usize,
    want: Option<Want>,
}

impl Faulty {
    fn json(&self) -> bool {
        self.fl == Flavor::Json
    }
    /// Whether the fault is one of the next n, and which.
    fn here(&mut self, n: usize) -> Option<usize> {
        let k = self.at.wrapping_sub(self.site);
        self.site += n;
        (k < n).then_some(k)
    }
    fn str(&mut self, s: &str) {
        self.out += &textref::plain(&S::Str, &Val::str(s), self.fl)
    }
    /// A whole value in the place of another one.
    fn instead(&mut self, list: &[(&str, Want)]) -> bool {
        match self.here(list.len()) {
            Some(k) => {
                self.out += list[k].0;
                self.want = Some(list[k].1.clone());
                true
            }
            None => false,
        }
    }
    fn wrong(&mut self, s: &S, nullable: bool) -> bool {
        let json = self.json();
        let (open, brace) = (("[1,2]", Token("BlockOpen")), ("{\"a\":1}", Token("CurlyOpen")));
        let num = ("17", Token("U64(17)"));
        let neg = ("-17", Token("I64(-17)"));
        let frac = ("1.5", Token("F64(1.5)"));
        let text = ("\"a\"", Token("Str"));
        let yes = ("true", Token("Bool(true)"));
        let paren = ("(1,2)", Token("ParenOpen"));
        let null = ("null", Token("Null"));
        let mut l: Vec<(&str, Want)> = match s {
            S::U(_) | S::I(_) => vec![frac, text, yes, open, brace],
            S::F32 | S::F64 => vec![text, yes, open, brace],
            S::Bool => vec![frac, text, open, brace],
            S::Str => vec![num, neg, frac, yes, open, brace],
            S::Unit if json => vec![num, neg, frac, text, yes, open, brace],
            S::Unit => vec![num, neg, frac, text, yes, open, brace],
            S::Dur | S::Time => vec![num, neg, frac, text, yes, open],
            S::Seq(_) | S::Set(..) => vec![num, neg, frac, text, yes, brace],
            S::Map(..) => vec![num, neg, frac, text, yes, open],
            S::Arr(..) | S::Tup(_) if json => vec![num, neg, frac, text, yes, brace],
            S::Arr(..) | S::Tup(_) => vec![num, neg, frac, text, yes, open, brace],
            S::Struct(st) if json && st.kind == Kind::Tuple => {
                if st.fields.len() == 1 && st.transparent {
                    return false;
                }
                vec![num, neg, frac, text, yes, brace]
            }
            S::Struct(_) if json => vec![num, neg, frac, text, yes, open],
            S::Struct(_) => vec![num, neg, frac, text, yes, open, brace],
            S::Enum(e) if json => {
                let mut l = vec![num, neg, frac, yes, open];
                if e.variants.iter().all(|v| v.kind != Kind::Unit) {
                    l.push(text);
                }
                if e.variants.iter().all(|v| v.kind == Kind::Unit) {
                    l.push(brace);
                }
                l
            }
            S::Enum(_) => vec![num, neg, frac, text, yes, open, brace],
            _ => vec![],
        };
        if json && !nullable && !matches!(s, S::Unit | S::Time) {
            l.push(null);
        }
        if !json && matches!(s, S::U(_) | S::I(_) | S::F32 | S::F64 | S::Str | S::Bool | S::Dur | S::Seq(_) | S::Set(..) | S::Map(..) | S::Enum(_)) {
            l.push(paren);
        }
        self.instead(&l)
    }
    fn list(&mut self, brackets: (&str, &str), n: usize, mut f: impl FnMut(&mut Self, usize)) {
        self.out += brackets.0;
        for i in 0..n {
            if i > 0 {
                self.out += ",";
            }
            f(self, i);
        }
        self.out += brackets.1;
    }
    fn named(&mut self, fs: &[FieldS], vs: &[Val]) {
        let json = self.json();
        let mut parts: Vec<usize> = vec![];
        for (i, (f, v)) in fs.iter().zip(vs).enumerate() {
            if f.skip || v.is_none() && f.missing.as_ref() == Some(v) {
                continue;
            }
            if f.missing.is_none() && self.here(1).is_some() {
                self.want = Some(Missing(if json { f.json.clone() } else { f.ron.clone() }));
                continue;
            }
            parts.push(i);
        }
        // unknown keys are skipped in JSON
        let mut stranger = usize::MAX;
        let mut name = String::new();
        if !json && fs.iter().any(|f| !f.skip) {
            let names: Vec<&str> = fs.iter().filter(|f| !f.skip).map(|f| &f.ron[..]).collect();
            let other = strangers(&fs[0].ron, false, &names, fs.iter().map(|f| &f.name[..]));
            let n = parts.len() + 1;
            if let Some(k) = self.here(n * other.len()) {
                stranger = k % n;
                name = other[k / n].clone();
                self.want = Some(Key(name.clone()));
                parts.insert(stranger, usize::MAX);
            }
        }
        let n = parts.len();
        self.list(if json { ("{", "}") } else { ("(", ")") }, n, |w, i| {
            if i == stranger {
                w.out += &format!("{name}:7");
                return;
            }
            let f = &fs[parts[i]];
            if json {
                w.str(&f.json);
            } else {
                w.out += &f.ron;
            }
            w.out += ":";
            w.val(&f.ty, &vs[parts[i]], f.missing.is_some());
        })
    }
    fn positional(&mut self, fs: &[FieldS], vs: &[Val]) {
        let b = if self.json() { ("[", "]") } else { ("(", ")") };
        self.list(b, fs.len(), |w, i| w.val(&fs[i].ty, &vs[i], false));
    }
    fn val(&mut self, s: &S, v: &Val, nullable: bool) {
        let s = s.resolve();
        let json = self.json();
        if !matches!(s, S::Opt(_)) && self.wrong(&s, nullable) {
            return;
        }
        let tup = if json { ("[", "]") } else { ("(", ")") };
        match (&s, v) {
            (S::U(_) | S::I(_), _) => {
                let far = match &s {
                    S::U(b) => out_of(0, (1i128 << (8 * b)) - 1),
                    S::I(b) => out_of(-1i128 << (8 * b - 1), (1i128 << (8 * b - 1)) - 1),
                    _ => unreachable!(),
                };
                match self.here(far.len()) {
                    Some(k) => {
                        self.out += &far[k];
                        self.want = Some(Range(far[k].clone()));
                    }
                    None => self.out += &textref::plain(&s, v, self.fl),
                }
            }
            (S::Opt(t), Val::Opt(Some(x))) => self.val(t, x, true),
            (S::Seq(t), Val::Seq(x)) | (S::Set(t, _), Val::Set(x)) => self.list(("[", "]"), x.len(), |w, i| w.val(t, &x[i], false)),
            (S::Map(k, t, _), Val::Map(x)) => self.list(("{", "}"), x.len(), |w, i| {
                w.val(k, &x[i].0, false);
                w.out += ":";
                w.val(t, &x[i].1, false);
            }),
            (S::Arr(_, t), Val::Tup(x)) => self.list(tup, x.len(), |w, i| w.val(t, &x[i], false)),
            (S::Tup(ts), Val::Tup(x)) => self.list(tup, x.len(), |w, i| w.val(&ts[i], &x[i], false)),
            (S::Struct(st), v) => match st.kind {
                Kind::Tuple if json && st.transparent && st.fields.len() == 1 => self.val(&st.fields[0].ty, &v.items()[0], nullable),
                Kind::Tuple => self.positional(&st.fields, v.items()),
                _ => self.named(&st.fields, v.items()),
            },
            (S::Enum(e), Val::Enum(k, x)) => {
                let va = &e.variants[*k];
                let mut name = if json { va.json.clone() } else { va.name.clone() };
                let names: Vec<&str> = e.variants.iter().map(|v| if json { &v.json[..] } else { &v.name }).collect();
                let other = strangers(&name, json, &names, e.variants.iter().map(|v| &v.name[..]));
                if let Some(i) = self.here(other.len()) {
                    name = other[i].clone();
                    self.want = Some(Variant(name.clone()));
                }
                if json && va.kind == Kind::Unit {
                    return self.str(&name);
                }
                if json {
                    self.out += "{";
                    self.str(&name);
                    self.out += ":";
                } else {
                    self.out += &name;
                }
                match va.kind {
                    Kind::Unit => {}
                    Kind::Tuple => self.positional(&va.fields, x),
                    Kind::Named => self.named(&va.fields, x),
                }
                if json {
                    self.out += "}";
                }
            }
            (_, v) => self.out += &textref::plain(&s, v, self.fl),
        }
    }
}

/// Names which are not taken: short, long, and those next to one which is.
fn strangers<'a>(name: &str, json: bool, taken: &[&str], also: impl Iterator<Item = &'a str>) -> Vec<String> {
    let mut l = vec!["Zz".to_string(), "zz_09_".repeat(12), format!("{name}1"), name.to_uppercase(), name.to_lowercase()];
    l.push(name[..name.len() - name.chars().next_back().map_or(0, |c| c.len_utf8())].to_string());
    if json {
        l.extend(["".into(), "é\u{10ffff} \n\"\\".into(), format!(" {name}"), format!("{name}\0")]);
    }
    l.extend(also.map(String::from));
    let mut seen: Vec<&str> = taken.to_vec();
    let mut out = vec![];
    for x in &l {
        if !seen.contains(&&x[..]) && (json || x.starts_with(|c: char| c.is_ascii_alphabetic()) && x.is_ascii()) {
            seen.push(x);
            out.push(x.clone());
        }
    }
    out
}

/// Numbers of 64 bits outside of a range, next to it and far. A negative number is
/// not a number of the wrong size for an unsigned type but one of another kind.
fn out_of(min: i128, max: i128) -> Vec<String> {
    let lo = if min < 0 { i64::MIN as i128 } else { 0 };
    let mut l: Vec<i128> = vec![max + 1, min - 1, max + max / 2, 0xffff, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, -1 << 31, (-1 << 31) - 1, -1 << 32, -1 << 63];
    l.retain(|x| (*x < min || *x > max) && *x >= lo && *x < 1 << 64);
    l.sort();
    l.dedup();
    l.iter().map(|x| x.to_string()).collect()
}

fn gives(want: &Want, e: &TErr) -> bool {
    match want {
        Missing(n) => e.kind == "missing" && e.what == *n,
        Variant(n) => e.kind == "enum" && e.what == *n,
        Key(n) => e.kind == "key" && e.what == *n,
        Range(n) => e.kind == "range" && e.what.contains(&n[..]),
        Token(t) => e.kind == "token" && e.tok == *t,
    }
}

fn text(ctx: &mut Ctx, o: &Ops, fl: Flavor, th: bool) {
    let x = if fl == Flavor::Json { o.json.unwrap() } else { o.ron.unwrap() };
    let v = Gen::new([2, 4][th as usize]).gen(ctx, &o.schema);
    let faulty = |at: usize| {
        let mut w = Faulty { fl, out: String::new(), site: 0, at, want: None };
        w.val(&o.schema, &v, false);
        w
    };
    let n = faulty(usize::MAX).site;
    if n == 0 {
        return;
    }
    let w = faulty(ctx.pick(n));
    let want = w.want.unwrap();
    let r = ctx.guard(&[w.out.as_bytes()], usize::MAX, || (x.de)(&w.out));
    ctx.trace();
    ctx.state(&[o.name.as_bytes(), w.out.as_bytes()]);
    ctx.sample(|| format!("{} {fl:?} {}: {want:?}", o.name, w.out));
    let about = |what: String| format!("{} {fl:?} {}: the fault is {want:?}, but {what}", o.name, cut(&w.out));
    let bad = match &r {
        Ok(Err(e)) if !gives(&want, e) => about(format!("the error is {}", e.msg)),
        // what is named is shown
        Ok(Err(e)) => {
            let shown = match &want {
                Missing(n) | Variant(n) | Key(n) | Range(n) => n,
                Token(t) => *t,
            };
            if e.shown.contains(shown) {
                return;
            }
            about(format!("the error is shown as {}", e.shown))
        }
        r => about(format!("it is read as {}", show(r))),
    };
    ctx.violation(&w.out, &bad);
}

/// Where the tags of enums, the counts and the nanoseconds are.
fn tags(s: &S, v: &Val, base: usize, out: &mut Vec<(usize, usize)>) -> usize {
    let s = s.resolve();
    let mut at = base;
    match (&s, v) {
        (S::Opt(t), Val::Opt(x)) => {
            at += 1;
            if let Some(x) = x {
                at = tags(t, x, at, out);
            }
        }
        (S::Seq(t), Val::Seq(x)) | (S::Set(t, _), Val::Set(x)) => {
            at += 8;
            for x in x {
                at = tags(t, x, at, out);
            }
        }
        (S::Map(k, t, _), Val::Map(x)) => {
            at += 8;
            for (a, b) in x {
                at = tags(k, a, at, out);
                at = tags(t, b, at, out);
            }
        }
        (S::Arr(_, t), Val::Tup(x)) => {
            for x in x {
                at = tags(t, x, at, out);
            }
        }
        (S::Tup(ts), Val::Tup(x)) => {
            for (t, x) in ts.iter().zip(x) {
                at = tags(t, x, at, out);
            }
        }
        (S::Struct(st), v) => {
            for (f, x) in st.fields.iter().zip(v.items()).filter(|f| !f.0.skip) {
                at = tags(&f.ty, x, at, out);
            }
        }
        (S::Enum(e), Val::Enum(k, x)) => {
            out.push((at, e.variants.len()));
            at += 2;
            for (f, x) in e.variants[*k].fields.iter().zip(x).filter(|f| !f.0.skip) {
                at = tags(&f.ty, x, at, out);
            }
        }
        (s, v) => {
            let mut b = vec![];
            encode(s, v, &mut b);
            at += b.len();
        }
    }
    at
}

fn binary(ctx: &mut Ctx, o: &Ops, th: bool) {
    let x = o.bin.unwrap();
    let v = Gen::new([2, 4][th as usize]).nonfinite().gen(ctx, &o.schema);
    let mut enc = vec![];
    encode(&o.schema, &v, &mut enc);
    let mut sites = vec![];
    assert_eq!(tags(&o.schema, &v, 0, &mut sites), enc.len());
    let n = enc.len() + 4 * sites.len();
    if n == 0 {
        return;
    }
    let k = ctx.pick(n);
    let mut tag = None;
    if k < enc.len() {
        enc.truncate(k);
    } else {
        let (at, variants) = sites[(k - enc.len()) / 4];
        let d = [variants, variants + 1, 0x0100 + variants, 0xffff][(k - enc.len()) % 4];
        enc[at] = d as u8;
        enc[at + 1] = (d >> 8) as u8;
        tag = Some((d as isize, at));
    }
    let r = ctx.guard(&[&enc], usize::MAX, || (x.de)(&enc));
    ctx.trace();
    ctx.state(&[o.name.as_bytes(), &enc]);
    ctx.sample(|| format!("{} {}: {tag:?}", o.name, hex(&enc)));
    let bad = match (&r, tag) {
        (Ok(Err(e)), Some((d, _))) if e.variant == Some(d) && e.msg.contains(&d.to_string()) => return,
        (Ok(Err(e)), None) => match e.length {
            Some((want, have)) if have == enc.len() && e.o <= have && e.o.saturating_add(want) > have && e.msg.contains(&want.to_string()) => return,
            l => format!("the input ends, but the error is {l:?} {}", e.msg),
        },
        (r, Some((d, at))) => format!("there is no variant {d} at byte {at}, but the result is {}", show(r)),
        (r, None) => format!("the input ends, but the result is {}", show(r)),
    };
    ctx.violation(&hex(&enc), &format!("{} {}: {bad}", o.name, hex(&enc)));
}

pub fn c28(th: bool) -> Plan {
    let mut t = vec![];
    let d = 1;
    let mut list = all3();
    list.push(ops::<Ren>("Ren"));
    list.push(ops::<Vec<Ren>>("Vec<Ren>"));
    for o in list.iter() {
        for fl in [Flavor::Json, Flavor::Ron] {
            let o = o.clone();
            t.push(task(format!("{} {fl:?}", o.name), d, 2, move |ctx| text(ctx, &o, fl, th)));
        }
    }
    for o in list.into_iter().chain(bin_only()) {
        t.push(task(format!("{} binary", o.name), d, 2, move |ctx| binary(ctx, &o, th)));
    }
    Plan::new(
        "each value within the bounds is written as a document with exactly one fault, every fault in every place: a required key left out, an unknown variant, an unknown field (RON), a number next to or far outside of the range, a token of any other kind in the place of a value; in binary the input cut off anywhere and unknown variants; the error has to give that reason and to name the key, variant, number, token or length, and to show it",
        format!("~100 types; every combination of the first {} structural choices and at most {d} further deviation(s); all single faults", [2, 4][th as usize]),
        t,
    )
}
