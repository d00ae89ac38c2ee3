//! Writing any value at all, also what is not read back as it was: C27.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::schema::*;
use crate::types::*;
use crate::*;
use nanoserde::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};
use std::sync::Arc;
use std::time::SystemTime;

derived! { struct Wild {
    a: [SystemTime], b: [Option<SystemTime>], c: [f64], d: [Vec<f32>], e: [Option<Option<u8>>],
    f: [BTreeMap<String, SystemTime>], g: [String]
} }
derived! { struct WildNew([SystemTime] 0) }
derived! { enum Gust { T([SystemTime] a, [u8] b), F { x: [f32], y: [Option<f64>], z: [Option<SystemTime>] }, None, O([Option<()>] a) } }

/// What came of writing a value in one format in several ways.
#[derive(Default, Debug)]
struct Written {
    out: Vec<u8>,
    bad: Option<String>,
    read: Option<Result<Val, String>>,
}

#[derive(Clone)]
struct Writer {
    name: String,
    schema: Arc<S>,
    formats: &'static [Format],
    run: fn(&Val, Format, &S) -> Written,
}

/// Memory a call may hold or ask for.
fn fits(name: &str, out: usize, held: usize, all: usize) -> Option<String> {
    // a buffer which doubles is held twice while it moves
    if held > 4096 + 8 * out {
        return Some(format!("{name} {out} bytes takes {held} bytes of memory"));
    }
    if all > 65536 + 256 * out {
        return Some(format!("{name} {out} bytes requests {all} bytes of memory"));
    }
    None
}

fn other_way<T: Model>(v: &Val) -> T {
    OTHER_WAY.with(|o| o.set(true));
    ROOMY.with(|r| r.set(20));
    let t = T::from_val(v);
    OTHER_WAY.with(|o| o.set(false));
    t
}

fn written<T: Model>(
    v: &Val,
    s: &S,
    ser: impl Fn(&T) -> Vec<u8>,
    boxed: impl Fn(&Box<T>) -> Vec<u8>,
    slice: impl Fn(&[T]) -> Vec<u8>,
    vec: impl Fn(&Vec<T>) -> Vec<u8>,
    de: impl Fn(&[u8]) -> Result<Val, String>,
) -> Written {
    let mut w = Written::default();
    let t = T::from_val(v);
    let (out, held, all) = measure(|| ser(&t));
    w.bad = fits("writing", out.len(), held, all);
    if ser(&t) != out {
        w.bad = Some("is written in another way the second time".into());
    }
    if t.to_val() != *v {
        w.bad = Some("is another value after it was written".into());
    }
    let t = Box::new(t);
    if boxed(&t) != out {
        w.bad = Some("is written in another way out of a box".into());
    }
    let (t, u) = (vec![*t], [other_way::<T>(v)]);
    if vec(&t) != slice(&t) {
        w.bad = Some("is written in another way in a slice than in a vector".into());
    }
    let (again, held, all) = measure(|| ser(&u[0]));
    if w.bad.is_none() {
        w.bad = fits("writing, out of what has spare room,", again.len(), held, all);
    }
    if !s.unordered() && (again != out || slice(&u) != slice(&t)) {
        w.bad = Some("is written in another way when it is built in another way".into());
    }
    w.read = Some(de(&out));
    w.out = out;
    w
}

fn binary<T: Model + SerBin + DeBin>(v: &Val, s: &S) -> Written {
    written::<T>(
        v,
        s,
        |t| t.serialize_bin(),
        |t| t.serialize_bin(),
        // without the count which a vector begins with
        |t| [&(t.len() as u64).to_le_bytes()[..], &t.serialize_bin()].concat(),
        |t| t.serialize_bin(),
        |b| T::deserialize_bin(b).map(|t| t.to_val()).map_err(|e| e.to_string()),
    )
}
fn json<T: Model + SerJson + DeJson>(v: &Val, s: &S) -> Written {
    written::<T>(
        v,
        s,
        |t| t.serialize_json().into_bytes(),
        |t| t.serialize_json().into_bytes(),
        |t| t.serialize_json().into_bytes(),
        |t| t.serialize_json().into_bytes(),
        |b| T::deserialize_json(std::str::from_utf8(b).unwrap()).map(|t| t.to_val()).map_err(|e| e.to_string()),
    )
}
/// Vectors stand for slices, which have no RON.
fn ron<T: Model + SerRon + DeRon>(v: &Val, s: &S) -> Written {
    written::<T>(
        v,
        s,
        |t| t.serialize_ron().into_bytes(),
        |t| t.serialize_ron().into_bytes(),
        |t| t.iter().flat_map(|t| t.serialize_ron().into_bytes()).collect(),
        |t| t.iter().flat_map(|t| t.serialize_ron().into_bytes()).collect(),
        |b| T::deserialize_ron(std::str::from_utf8(b).unwrap()).map(|t| t.to_val()).map_err(|e| e.to_string()),
    )
}
fn writer<T: Model + SerBin + DeBin + SerJson + DeJson + SerRon + DeRon>(name: &str) -> Writer {
    Writer {
        name: name.into(),
        schema: sc::<T>(),
        formats: &[Format::Bin, Format::Json, Format::Ron],
        run: |v, f, s| match f {
            Format::Bin => binary::<T>(v, s),
            Format::Json => json::<T>(v, s),
            Format::Ron => ron::<T>(v, s),
        },
    }
}
fn bin_writer<T: Model + SerBin + DeBin>(name: &str) -> Writer {
    Writer { name: name.into(), schema: sc::<T>(), formats: &[Format::Bin], run: |v, _, s| binary::<T>(v, s) }
}

macro_rules! writers {
    ($o:ident: $($t:ty),* $(,)?) => { vec![$($o::<$t>(stringify!($t))),*] };
}
fn list() -> Vec<Writer> {
    let mut v = writers![writer:
        u8, u16, u32, u64, usize, i8, i16, i32, i64, f32, f64, bool, String, std::time::Duration, SystemTime, (),
        Option<u8>, Option<String>, Option<f64>, Option<E>, Option<SystemTime>, Option<Option<u8>>, Option<()>, Option<UnitSt>,
        Option<Option<()>>, Option<Option<SystemTime>>, Option<Box<Option<u8>>>, Option<Gust>, Option<Option<Vec<u8>>>,
        Vec<u8>, Vec<String>, Vec<bool>, Vec<f64>, Vec<SystemTime>, Vec<Option<SystemTime>>, Vec<Option<()>>, Vec<Option<Option<bool>>>, Vec<Gust>,
        Vec<()>, Vec<Vec<f32>>, Vec<Option<i32>>, Vec<Pt>, Vec<E>, Vec<[u8; 0]>, Vec<BTreeMap<String, f32>>,
        LinkedList<SystemTime>, LinkedList<f32>, LinkedList<Vec<u8>>, LinkedList<()>,
        BTreeSet<u8>, BTreeSet<String>, BTreeSet<SystemTime>, BTreeSet<Vec<String>>, BTreeSet<Option<u8>>, BTreeSet<()>,
        HashSet<u8>, HashSet<String>, HashSet<SystemTime>, HashSet<Option<bool>>,
        BTreeMap<String, u32>, BTreeMap<String, f64>, BTreeMap<String, SystemTime>, BTreeMap<u8, Option<SystemTime>>, BTreeMap<String, Option<Option<u8>>>,
        BTreeMap<Vec<u8>, u8>, BTreeMap<bool, ()>, BTreeMap<Option<u8>, u8>, BTreeMap<[u8; 2], u8>, BTreeMap<(), u8>, BTreeMap<(u8, String), u8>,
        BTreeMap<SystemTime, u8>, BTreeMap<BTreeMap<u8, u8>, u8>, BTreeMap<Box<i64>, Box<f32>>, BTreeMap<std::time::Duration, u8>,
        HashMap<String, Vec<u8>>, HashMap<u16, bool>, HashMap<Vec<u8>, Vec<f32>>, HashMap<SystemTime, u8>, HashMap<Option<String>, u8>,
        [f32; 2], [SystemTime; 2], [Option<()>; 2], [u8; 0], [[f64; 2]; 2], [String; 3],
        (SystemTime, u8), (f32, f64), (u8, String, Option<SystemTime>), (Option<()>, u8, f64, Option<Option<u8>>), ((u8, f32), [Option<SystemTime>; 2]),
        Box<SystemTime>, Box<f64>, Box<Option<u8>>,
        Wild, WildNew, Gust, Vec<Wild>, Option<WildNew>, BTreeMap<String, Gust>, Box<Wild>, Gn<SystemTime, f64>, Gn<Option<()>, Option<SystemTime>>,
        Pt, Opts, Deep, Mix, New, Duo, Trio, E, Wrap, List, Tree, Sets, Hashes, Arrs, Empty, Big, UnitSt,
    ];
    v.extend(writers![bin_writer: u128, i128, Vec<u128>, (i128, u128), Option<Option<u128>>]);
    v
}

/// Whether a value is written as the format writes None.
fn nothing(s: &S, v: &Val, f: Format) -> bool {
    match (s.resolve(), v) {
        (S::Unit, _) => f == Format::Json,
        (S::Time, Val::Time(_, n)) => n & EARLY != 0,
        (S::Opt(_), Val::Opt(None)) => true,
        (S::Opt(t), Val::Opt(Some(x))) => nothing(&t, x, f),
        (S::Enum(e), Val::Enum(k, _)) => f == Format::Ron && e.variants[*k].kind == Kind::Unit && e.variants[*k].name == "None",
        _ => false,
    }
}
/// What the written value says: times before the epoch are written as if they
/// were none and stand for the epoch then.  None if two keys become one.
fn says(s: &S, v: &Val, f: Format) -> Option<Val> {
    let all = |ts: &mut dyn Iterator<Item = (&S, &Val)>| ts.map(|(t, x)| says(t, x, f)).collect::<Option<Vec<Val>>>();
    Some(match (s, v) {
        (S::Lazy(g), v) => says(&g(), v, f)?,
        (S::Time, Val::Time(_, n)) if n & EARLY != 0 => Val::Time(0, 0),
        (S::Opt(t), Val::Opt(Some(x))) => {
            if f != Format::Bin && nothing(t, x, f) {
                Val::none()
            } else {
                Val::some(says(t, x, f)?)
            }
        }
        (S::Seq(t), Val::Seq(x)) => Val::Seq(all(&mut x.iter().map(|x| (&**t, x)))?),
        (S::Set(t, _), Val::Set(x)) => {
            let mut y = all(&mut x.iter().map(|x| (&**t, x)))?;
            y.sort();
            y.dedup();
            Val::Set(y)
        }
        (S::Map(k, t, _), Val::Map(x)) => {
            let mut y = vec![];
            for (a, b) in x {
                y.push((says(k, a, f)?, says(t, b, f)?));
            }
            y.sort();
            if y.windows(2).any(|w| w[0].0 == w[1].0) {
                return None;
            }
            Val::Map(y)
        }
        (S::Arr(_, t), Val::Tup(x)) => Val::Tup(all(&mut x.iter().map(|x| (&**t, x)))?),
        (S::Tup(ts), Val::Tup(x)) => Val::Tup(all(&mut ts.iter().zip(x).map(|(t, x)| (&**t, x)))?),
        (S::Struct(st), Val::Tup(x)) => Val::Tup(all(&mut st.fields.iter().zip(x).map(|(t, x)| (&*t.ty, x)))?),
        (S::Enum(e), Val::Enum(k, x)) => Val::Enum(*k, all(&mut e.variants[*k].fields.iter().zip(x).map(|(t, x)| (&*t.ty, x)))?),
        (_, v) => v.clone(),
    })
}
/// NaNs are all alike in a text.
fn plain(v: &Val, f: Format, wild: &mut bool) -> Val {
    let mut go = |x: &[Val]| x.iter().map(|x| plain(x, f, wild)).collect::<Vec<_>>();
    match v {
        Val::F32(b) if f != Format::Bin && !f32::from_bits(*b).is_finite() => {
            *wild = true;
            Val::F32(if f32::from_bits(*b).is_nan() { f32::NAN.to_bits() } else { *b })
        }
        Val::F64(b) if f != Format::Bin && !f64::from_bits(*b).is_finite() => {
            *wild = true;
            Val::F64(if f64::from_bits(*b).is_nan() { f64::NAN.to_bits() } else { *b })
        }
        Val::Opt(Some(x)) => Val::some(plain(x, f, wild)),
        Val::Seq(x) => Val::Seq(go(x)),
        Val::Set(x) => Val::Set(go(x)),
        Val::Tup(x) => Val::Tup(go(x)),
        Val::Enum(k, x) => Val::Enum(*k, go(x)),
        Val::Map(x) => Val::Map(x.iter().map(|(a, b)| (plain(a, f, wild), plain(b, f, wild))).collect()),
        v => v.clone(),
    }
}

fn judge(ctx: &mut Ctx, w: &Writer, f: Format, v: &Val, large: bool) {
    let r = ctx.guard(&[w.name.as_bytes(), format!("{f:?}").as_bytes()], usize::MAX - 1, || (w.run)(v, f, &w.schema));
    ctx.trace();
    let about = |what: &str| format!("{} value {} in {f:?} {what}", w.name, cut(&show(v)));
    let r = match r {
        Ok(r) => r,
        Err(p) => return ctx.violation(&show(v), &about(&format!(": {p}"))),
    };
    if large {
        ctx.state(&[w.name.as_bytes(), &r.out.len().to_le_bytes()]);
    } else {
        ctx.state(&[w.name.as_bytes(), &r.out]);
    }
    ctx.sample(|| format!("{} {v:?} in {f:?}: {}", w.name, if f == Format::Bin { hex(&r.out) } else { String::from_utf8_lossy(&r.out).into() }));
    if let Some(b) = r.bad {
        return ctx.violation(&show(v), &about(&b));
    }
    let Some(said) = says(&w.schema, v, f) else { return };
    let mut wild = false;
    let want = plain(&said, f, &mut wild);
    match r.read.unwrap() {
        Ok(got) if plain(&got, f, &mut false) == want => {}
        // what stands for a float which is not finite need not be readable
        Err(_) if wild => {}
        r => ctx.violation(&show(v), &about(&format!("is read back as {}", cut(&show(&r))))),
    }
}

pub fn c27(th: bool) -> Plan {
    let mut t = vec![];
    for w in list() {
        for &f in w.formats {
            let w = w.clone();
            t.push(task(format!("{} {f:?}", w.name), 2, 2, move |ctx| {
                let mut g = Gen::new([3, 6][th as usize]).nonfinite();
                g.early = true;
                let v = g.gen(ctx, &w.schema);
                judge(ctx, &w, f, &v, false)
            }));
        }
    }
    for w in list() {
        if !values::LONG.contains(&&w.name[..]) {
            continue;
        }
        for &f in w.formats {
            let w = w.clone();
            t.push(task(format!("{} {f:?} of any length", w.name), 0, 1, move |ctx| {
                let n = [1, 1000, 4096, 65_536, 1_000_000][ctx.pick(5)];
                judge(ctx, &w, f, &values::long(&w.schema, n), true)
            }));
        }
    }
    for f in [Format::Bin, Format::Json, Format::Ron] {
        t.push(task(format!("long strings {f:?}"), 0, 1, move |ctx| {
            let w = writer::<String>("String");
            let s = STRS[1..][ctx.pick(STRS.len() - 1)];
            let n = [100, 10_000, 1_000_000][ctx.pick(3)];
            judge(ctx, &w, f, &Val::Str(s.repeat(n / s.len().min(4) + 1)), true)
        }));
    }
    Plan::new(
        "every value of every type within the bounds, floats which are not finite and times before the epoch among them, is written twice, out of a box, in a slice and in a vector, and once more built in another way (maps and sets from the last item on, strings and vectors with spare room): it has to be written, in the same way each time, with memory in proportion to the output, and read back as what the written parts say or, floats which are not finite, rejected",
        format!(
            "{} types; every combination of the first {} structural choices and at most 2 further deviations, each over all special values; flat containers and strings of up to 1 000 000 items or 4 MB",
            list().len(),
            [3, 6][th as usize]
        ),
        t,
    )
}
