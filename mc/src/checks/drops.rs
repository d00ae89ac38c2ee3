//! Elements of arrays and what becomes of them: C18.

use super::*;
use crate::engine::*;
use nanoserde::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, LinkedList};
use std::str::Chars;

#[derive(Default)]
struct Reg {
    live: std::collections::BTreeSet<u64>,
    next: u64,
    /// elements without an identity
    anonymous: i64,
    bad: Vec<String>,
    decodes: usize,
    /// which decoding of an element fails, and whether it takes its input first
    fail: Option<(usize, bool)>,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::default();
}
fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    REG.with(|r| f(&mut r.borrow_mut()))
}
const MAGIC: u64 = 0x5ca1_ab1e_0ddb_a11c;

/// When the next element decoder shall fail.
fn fails() -> Option<bool> {
    reg(|r| {
        let k = r.decodes;
        r.decodes += 1;
        match r.fail {
            Some((n, after)) if n == k => Some(after),
            _ => None,
        }
    })
}

pub trait Elem: Sized + DeBin + DeJson + DeRon {
    fn make(pay: u8) -> Self;
    fn see(&self, out: &mut Vec<(u64, u8)>);
}
macro_rules! elem {
    ($t:ident) => {
        impl DeBin for $t {
            fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
                let f = fails();
                let start = *o;
                if f == Some(false) {
                    return Err(DeBin::de_bin(&mut d.len(), d).map(|_: u8| ()).unwrap_err());
                }
                let v = u8::de_bin(o, d)?;
                if f == Some(true) || v == 0xee {
                    let _ = start;
                    return Err(DeBin::de_bin(&mut d.len(), d).map(|_: u8| ()).unwrap_err());
                }
                Ok(Self::make(v))
            }
        }
        impl DeJson for $t {
            fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<Self, DeJsonErr> {
                let f = fails();
                if f == Some(false) {
                    return Err(s.err_parse("probe"));
                }
                let v = u8::de_json(s, i)?;
                if f == Some(true) || v == 0xee {
                    return Err(s.err_parse("probe"));
                }
                Ok(Self::make(v))
            }
        }
        impl DeRon for $t {
            fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<Self, DeRonErr> {
                let f = fails();
                if f == Some(false) {
                    return Err(s.err_parse("probe"));
                }
                let v = u8::de_ron(s, i)?;
                if f == Some(true) || v == 0xee {
                    return Err(s.err_parse("probe"));
                }
                Ok(Self::make(v))
            }
        }
    };
}

fn born() -> u64 {
    reg(|r| {
        r.next += 1;
        let id = r.next;
        r.live.insert(id);
        id
    })
}
fn dies(id: u64, check: u64) {
    reg(|r| {
        if id ^ MAGIC != check {
            r.bad.push("something which is no decoded element is dropped".into());
        } else if !r.live.remove(&id) {
            r.bad.push(format!("element {id} is dropped twice"));
        }
    })
}

/// Sixteen bytes and more.
struct P {
    id: u64,
    check: u64,
    pay: u8,
}
impl Drop for P {
    fn drop(&mut self) {
        dies(self.id, self.check)
    }
}
impl Elem for P {
    fn make(pay: u8) -> P {
        let id = born();
        P { id, check: id ^ MAGIC, pay }
    }
    fn see(&self, out: &mut Vec<(u64, u8)>) {
        out.push((if self.id ^ MAGIC == self.check { self.id } else { u64::MAX }, self.pay))
    }
}
/// Owns memory, with a niche.
struct H(Box<(u64, u64, u8)>);
impl Drop for H {
    fn drop(&mut self) {
        dies(self.0 .0, self.0 .1)
    }
}
impl Elem for H {
    fn make(pay: u8) -> H {
        let id = born();
        H(Box::new((id, id ^ MAGIC, pay)))
    }
    fn see(&self, out: &mut Vec<(u64, u8)>) {
        out.push((if self.0 .0 ^ MAGIC == self.0 .1 { self.0 .0 } else { u64::MAX }, self.0 .2))
    }
}
/// No bytes at all.
struct Z;
impl Drop for Z {
    fn drop(&mut self) {
        reg(|r| {
            r.anonymous -= 1;
            if r.anonymous < 0 {
                r.bad.push("more elements are dropped than decoded".into());
            }
        })
    }
}
impl Elem for Z {
    fn make(_: u8) -> Z {
        reg(|r| r.anonymous += 1);
        Z
    }
    fn see(&self, out: &mut Vec<(u64, u8)>) {
        out.push((0, 0))
    }
}
elem!(P);
elem!(H);
elem!(Z);

/// How a shape around elements is written and walked.
pub trait Walk: Sized {
    fn walk(&self, out: &mut Vec<(u64, u8)>);
    fn bin(n: &mut usize, o: &mut Vec<u8>);
    fn text(n: &mut usize, ron: bool, o: &mut Vec<String>);
}
fn t(o: &mut Vec<String>, s: &str) {
    o.push(s.into())
}
macro_rules! walk_elem {
    ($($t:ident)*) => {$(
        impl Walk for $t {
            fn walk(&self, out: &mut Vec<(u64, u8)>) {
                self.see(out)
            }
            fn bin(n: &mut usize, o: &mut Vec<u8>) {
                *n += 1;
                o.push((*n % 200) as u8);
            }
            fn text(n: &mut usize, _: bool, o: &mut Vec<String>) {
                *n += 1;
                o.push((*n % 200).to_string());
            }
        }
    )*};
}
walk_elem!(P H Z);
impl<T: Walk, const N: usize> Walk for [T; N] {
    fn walk(&self, out: &mut Vec<(u64, u8)>) {
        self.iter().for_each(|x| x.walk(out))
    }
    fn bin(n: &mut usize, o: &mut Vec<u8>) {
        (0..N).for_each(|_| T::bin(n, o))
    }
    fn text(n: &mut usize, ron: bool, o: &mut Vec<String>) {
        t(o, if ron { "(" } else { "[" });
        for k in 0..N {
            if k > 0 {
                t(o, ",")
            }
            T::text(n, ron, o);
        }
        t(o, if ron { ")" } else { "]" });
    }
}
macro_rules! walk_seq {
    ($($t:ident)*) => {$(
        impl<T: Walk> Walk for $t<T> {
            fn walk(&self, out: &mut Vec<(u64, u8)>) {
                self.iter().for_each(|x| x.walk(out))
            }
            fn bin(n: &mut usize, o: &mut Vec<u8>) {
                o.extend(2u64.to_le_bytes());
                (0..2).for_each(|_| T::bin(n, o))
            }
            fn text(n: &mut usize, ron: bool, o: &mut Vec<String>) {
                t(o, "[");
                T::text(n, ron, o);
                t(o, ",");
                T::text(n, ron, o);
                t(o, "]");
            }
        }
    )*};
}
walk_seq!(Vec LinkedList);
impl<T: Walk> Walk for Option<T> {
    fn walk(&self, out: &mut Vec<(u64, u8)>) {
        self.iter().for_each(|x| x.walk(out))
    }
    fn bin(n: &mut usize, o: &mut Vec<u8>) {
        o.push(1);
        T::bin(n, o)
    }
    fn text(n: &mut usize, ron: bool, o: &mut Vec<String>) {
        T::text(n, ron, o)
    }
}
impl<T: Walk> Walk for Box<T> {
    fn walk(&self, out: &mut Vec<(u64, u8)>) {
        (**self).walk(out)
    }
    fn bin(n: &mut usize, o: &mut Vec<u8>) {
        T::bin(n, o)
    }
    fn text(n: &mut usize, ron: bool, o: &mut Vec<String>) {
        T::text(n, ron, o)
    }
}
impl<T: Walk> Walk for BTreeMap<u8, T> {
    fn walk(&self, out: &mut Vec<(u64, u8)>) {
        self.values().for_each(|x| x.walk(out))
    }
    fn bin(n: &mut usize, o: &mut Vec<u8>) {
        o.extend(2u64.to_le_bytes());
        for k in 1..3 {
            o.push(k);
            T::bin(n, o)
        }
    }
    fn text(n: &mut usize, ron: bool, o: &mut Vec<String>) {
        for k in ["{", ","].iter().zip(["1", "2"]) {
            t(o, k.0);
            t(o, k.1);
            t(o, ":");
            T::text(n, ron, o);
        }
        t(o, "}");
    }
}
macro_rules! walk_tuple {
    ($($a:ident $i:tt),*) => {
        impl<$($a: Walk),*> Walk for ($($a),*) {
            fn walk(&self, out: &mut Vec<(u64, u8)>) {
                $(self.$i.walk(out);)*
            }
            fn bin(n: &mut usize, o: &mut Vec<u8>) {
                $($a::bin(n, o);)*
            }
            fn text(n: &mut usize, ron: bool, o: &mut Vec<String>) {
                t(o, if ron { "(" } else { "[" });
                $(if $i > 0 { t(o, ",") } $a::text(n, ron, o);)*
                t(o, if ron { ")" } else { "]" });
            }
        }
    };
}
walk_tuple!(A 0, B 1);
walk_tuple!(A 0, B 1, C 2);
walk_tuple!(A 0, B 1, C 2, D 3);

#[derive(DeBin, DeJson, DeRon)]
struct Two<A, B> {
    a: A,
    b: B,
}
impl<A: Walk, B: Walk> Walk for Two<A, B> {
    fn walk(&self, out: &mut Vec<(u64, u8)>) {
        self.a.walk(out);
        self.b.walk(out);
    }
    fn bin(n: &mut usize, o: &mut Vec<u8>) {
        A::bin(n, o);
        B::bin(n, o);
    }
    fn text(n: &mut usize, ron: bool, o: &mut Vec<String>) {
        t(o, if ron { "(" } else { "{" });
        t(o, if ron { "a" } else { "\"a\"" });
        t(o, ":");
        A::text(n, ron, o);
        t(o, ",");
        t(o, if ron { "b" } else { "\"b\"" });
        t(o, ":");
        B::text(n, ron, o);
        t(o, if ron { ")" } else { "}" });
    }
}
#[derive(DeBin, DeJson, DeRon)]
struct Tup2<A, B>(A, B);
impl<A: Walk, B: Walk> Walk for Tup2<A, B> {
    fn walk(&self, out: &mut Vec<(u64, u8)>) {
        self.0.walk(out);
        self.1.walk(out);
    }
    fn bin(n: &mut usize, o: &mut Vec<u8>) {
        <(A, B)>::bin(n, o)
    }
    fn text(n: &mut usize, ron: bool, o: &mut Vec<String>) {
        <(A, B)>::text(n, ron, o)
    }
}
#[derive(DeBin, DeJson, DeRon)]
enum En<A, B> {
    #[allow(dead_code)]
    Nothing,
    V(A, B),
    #[allow(dead_code)]
    W { x: A, y: B },
}
impl<A: Walk, B: Walk> Walk for En<A, B> {
    fn walk(&self, out: &mut Vec<(u64, u8)>) {
        match self {
            En::Nothing => {}
            En::V(a, b) | En::W { x: a, y: b } => {
                a.walk(out);
                b.walk(out);
            }
        }
    }
    fn bin(n: &mut usize, o: &mut Vec<u8>) {
        o.extend([1 + (*n % 2) as u8, 0]);
        A::bin(n, o);
        B::bin(n, o);
    }
    fn text(n: &mut usize, ron: bool, o: &mut Vec<String>) {
        let named = *n % 2 == 1;
        if !ron {
            t(o, "{");
            t(o, if named { "\"W\"" } else { "\"V\"" });
            t(o, ":");
        } else {
            t(o, if named { "W" } else { "V" });
        }
        t(o, if ron { "(" } else if named { "{" } else { "[" });
        if named {
            t(o, if ron { "x" } else { "\"x\"" });
            t(o, ":");
        }
        A::text(n, ron, o);
        t(o, ",");
        if named {
            t(o, if ron { "y" } else { "\"y\"" });
            t(o, ":");
        }
        B::text(n, ron, o);
        t(o, if ron { ")" } else if named { "}" } else { "]" });
        if !ron {
            t(o, "}");
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Fmt {
    Bin,
    Json,
    Ron,
}

/// Decode and judge. `whole`: the input is the encoding of n elements.
fn judge<T: Walk + DeBin + DeJson + DeRon>(ctx: &mut Ctx, name: &str, f: Fmt, input: &[u8], fail: Option<(usize, bool)>, whole: Option<usize>) {
    reg(|r| *r = Reg { fail, ..Default::default() });
    let text = String::from_utf8_lossy(input).into_owned();
    ctx.state(&[name.as_bytes(), &[f as u8], input, format!("{fail:?}").as_bytes()]);
    ctx.trace();
    let mut bad: Vec<String> = vec![];
    let mut seen = vec![];
    let mut live_at_end = None;
    let r = ctx.guard(&[name.as_bytes(), input], usize::MAX, || {
        let v = match f {
            Fmt::Bin => T::deserialize_bin(input).map_err(|e| format!("{e}")),
            Fmt::Json => T::deserialize_json(&text).map_err(|e| format!("{e}")),
            Fmt::Ron => T::deserialize_ron(&text).map_err(|e| format!("{e}")),
        };
        if let Ok(x) = &v {
            x.walk(&mut seen);
            live_at_end = Some(reg(|r| (r.live.iter().copied().collect::<Vec<_>>(), r.anonymous)));
        }
        v.map(drop)
    });
    let ok = match &r {
        Err(p) => {
            bad.push(p.clone());
            false
        }
        Ok(r) => r.is_ok(),
    };
    if let Some((live, anon)) = &live_at_end {
        let mut ids: Vec<u64> = seen.iter().map(|s| s.0).filter(|i| *i != 0).collect();
        ids.sort();
        let n_anon = seen.iter().filter(|s| s.0 == 0).count() as i64;
        if ids != *live || n_anon != *anon {
            bad.push(format!("holds elements {ids:?} and {n_anon} others, while {live:?} and {anon} others live"));
        }
    }
    reg(|r| {
        bad.extend(r.bad.drain(..));
        if !r.live.is_empty() {
            bad.push(format!("elements {:?} are never dropped", r.live));
        }
        if r.anonymous > 0 {
            bad.push(format!("{} elements are never dropped", r.anonymous));
        }
        if let Some((k, _)) = r.fail {
            if ok && r.decodes > k {
                bad.push(format!("succeeds although element {k} fails"));
            }
        }
    });
    if let (Some(n), None) = (whole, fail) {
        let pays: Vec<u8> = seen.iter().map(|s| s.1).collect();
        let want: Vec<u8> = (1..=n).map(|k| (k % 200) as u8).collect();
        if !ok {
            bad.push(format!("fails: {}", show(&r)));
        } else if pays != want && !seen.iter().all(|s| s.0 == 0) || pays.len() != want.len() {
            bad.push(format!("holds {pays:?} instead of {want:?}"));
        }
    }
    if let Some(b) = bad.first() {
        let input = if f == Fmt::Bin { hex(input) } else { cut(&text) };
        ctx.violation(&format!("{input} {fail:?}"), &format!("{name} from {input} with a fault at {fail:?}: {b}"));
    }
}

const INTRUDERS: &[&str] = &["[", "]", "(", ")", "{", "}", ",", ":", "7", "300", "238", "-1", "\"s\"", "null", "None", "x", "\"", "#"];

fn shape<T: Walk + DeBin + DeJson + DeRon + 'static>(out: &mut Vec<Task>, th: bool) {
    let name = std::any::type_name::<T>().replace("mc::checks::drops::", "").replace("alloc::", "").replace("collections::", "");
    for f in [Fmt::Bin, Fmt::Json, Fmt::Ron] {
        let label = ["binary", "JSON", "RON"][f as usize];
        let name = name.clone();
        out.push(task(format!("{label} {name}"), 0, 2, move |ctx| {
            let mut n = 0;
            let mut toks: Vec<Vec<u8>> = vec![];
            if f == Fmt::Bin {
                let mut b = vec![];
                T::bin(&mut n, &mut b);
                toks = b.into_iter().map(|x| vec![x]).collect();
            } else {
                let mut t = vec![];
                T::text(&mut n, f == Fmt::Ron, &mut t);
                toks.extend(t.into_iter().map(|s| s.into_bytes()));
            }
            let total = n as usize;
            let pick_fail = |ctx: &mut Ctx| match ctx.pick(1 + 2 * total) {
                0 => None,
                k => Some(((k - 1) / 2, (k - 1) % 2 == 1)),
            };
            let pristine = toks.concat();
            let run = |ctx: &mut Ctx, b: &[u8], fail| {
                let whole = if b == &pristine[..] { Some(n) } else { None };
                judge::<T>(ctx, &name, f, b, fail, whole)
            };
            ctx.sample(|| format!("{label} {name} from every mutant of {}", show_bytes(&pristine)));
            let edits = |ctx: &mut Ctx, toks: &[Vec<u8>]| -> Vec<Vec<u8>> {
                let i = ctx.pick(toks.len() + 1);
                let mut u = toks.to_vec();
                let bytes = [0u8, 1, 2, 0xee, 0xff];
                let new = |ctx: &mut Ctx| match f {
                    Fmt::Bin => vec![bytes[ctx.pick(bytes.len())]],
                    _ => INTRUDERS[ctx.pick(INTRUDERS.len())].as_bytes().to_vec(),
                };
                match ctx.pick(4) {
                    0 if i < u.len() => {
                        u.remove(i);
                    }
                    1 if i < u.len() => u[i] = new(ctx),
                    2 => u.insert(i, new(ctx)),
                    3 => u.truncate(i),
                    _ => {}
                }
                u
            };
            // a fault in an element, in the input, or one in each
            match ctx.pick(if th { 4 } else { 3 }) {
                0 => {
                    let fail = pick_fail(ctx);
                    run(ctx, &pristine, fail);
                }
                1 => {
                    let u = edits(ctx, &toks).concat();
                    run(ctx, &u, None);
                }
                2 => {
                    if toks.len() > 60 {
                        return;
                    }
                    let u = edits(ctx, &toks).concat();
                    let fail = pick_fail(ctx);
                    run(ctx, &u, fail);
                }
                _ => {
                    if toks.len() > 40 {
                        return;
                    }
                    let u = edits(ctx, &toks);
                    let u = edits(ctx, &u).concat();
                    run(ctx, &u, None);
                }
            }
        }));
    }
}

fn shapes<E: Elem + Walk + 'static>(out: &mut Vec<Task>, th: bool) {
    macro_rules! all { ($($t:ty),* $(,)?) => { $(shape::<$t>(out, th);)* } }
    all!(
        [E; 0], [E; 1], [E; 2], [E; 3], [E; 4], [E; 5], [E; 6], [E; 7], [E; 8], [E; 9], [E; 16], [E; 17], [E; 32], [E; 33], [E; 64], [E; 65],
        [E; 256], [E; 257], [[E; 17]; 17],
        [[E; 2]; 2], [[E; 3]; 0], [[E; 0]; 3], [[E; 1]; 3], [[E; 3]; 1], [[[E; 2]; 2]; 2],
        ([E; 2], [E; 3]), (E, [E; 2], E), ([E; 2], E, [E; 1], [E; 2]),
        Vec<[E; 2]>, LinkedList<[E; 3]>, BTreeMap<u8, [E; 2]>, Option<[E; 3]>, Box<[E; 2]>,
        [Vec<E>; 2], [LinkedList<E>; 2], [Option<E>; 3], [Box<E>; 3], [BTreeMap<u8, E>; 2], [(E, E); 3], [(E, [E; 2]); 2],
        Two<[E; 2], [E; 3]>, [Two<E, [E; 2]>; 2], Tup2<[E; 2], E>, [Tup2<E, E>; 3], En<[E; 2], E>, [En<E, [E; 2]>; 2],
        Vec<Two<[E; 2], Vec<[E; 1]>>>, Two<Option<[E; 2]>, Box<[Option<E>; 2]>>, [Option<[E; 2]>; 2], [Vec<[E; 2]>; 2],
    );
}

pub fn c18(th: bool) -> Plan {
    let mut v = vec![];
    shapes::<P>(&mut v, th);
    shapes::<H>(&mut v, th);
    shapes::<Z>(&mut v, th);
    Plan::new(
        "arrays of elements which register their life are decoded from every faulty input of the bounded space; each decoded element must be dropped exactly once and nothing else, success must hold the elements in order; a state is a distinct (type, format, input, failing element)",
        format!(
            "50 shapes with arrays of up to 289 elements x 3 kinds of element (inline, heap, zero-sized) x 3 formats; every single failing element (before or after taking its input), every deletion, replacement, insertion and truncation of a token or byte, every pair of one of each{}",
            if th { ", every pair of edits for inputs of up to 40 tokens" } else { "" }
        ),
        v,
    )
}
