//! Values of all types, written and read back: C01, C02, C05, C06, C10.

use super::*;
use crate::binref::{decode, encode};
use crate::engine::*;
use crate::gen::*;
use crate::rfc;
use crate::schema::*;
use crate::types::*;

const FREE: [usize; 2] = [3, 6];
const LENS: &[usize] = &[65535, 65536, 65537];

fn bounds(th: bool, dev: usize) -> String {
    format!(
        "containers of 0..=3 items; every combination of the first {} structural choices (length, option, variant) of a value, and at most {} further deviation(s) from its default content, each over all special values of its type; plus every length 0..=300 and 65535..=65537 of flat containers, and every depth 0..=300 of two recursive types",
        FREE[th as usize], dev
    )
}

fn gen(ctx: &mut Ctx, s: &S, th: bool, nonfinite: bool) -> Val {
    let mut g = Gen::new(FREE[th as usize]);
    if nonfinite {
        g = g.nonfinite();
    }
    g.gen(ctx, s)
}

/// A flat container of n items.
pub fn long(s: &S, n: usize) -> Val {
    fn item(s: &S, i: usize) -> Val {
        match s.resolve() {
            S::U(b) => Val::U(i as u128 & ((1u128 << (8 * b as u32)) - 1)),
            S::I(b) => Val::I((i as i128) << (128 - 8 * b as u32) >> (128 - 8 * b as u32)),
            S::Str => Val::Str(format!("k{i}")),
            S::Bool => Val::Bool(i % 3 == 0),
            S::Unit => Val::Unit,
            S::Opt(t) => {
                if i % 3 == 1 {
                    Val::none()
                } else {
                    Val::some(item(&t, i))
                }
            }
            S::Tup(ts) => Val::Tup(ts.iter().map(|t| item(t, i)).collect()),
            s => s.zero(),
        }
    }
    match s {
        S::Str => Val::Str((0..n).map(|i| if i % 7 == 3 && i + 1 < n { 'x' } else { (b'a' + (i % 26) as u8) as char }).collect()),
        S::Seq(t) => Val::Seq((0..n).map(|i| item(t, i)).collect()),
        S::Set(t, _) => set_val((0..n).map(|i| item(t, i)).collect()),
        S::Map(k, t, _) => map_val((0..n).map(|i| (item(k, i), item(t, i))).collect()),
        _ => panic!(),
    }
}
/// A value of a recursive type, n deep.
fn deep(name: &str, n: usize) -> Val {
    let leaf = match name {
        "List" => Val::Tup(vec![Val::U(7), Val::none()]),
        _ => Val::Enum(0, vec![]),
    };
    (0..n).fold(leaf, |v, i| match name {
        "List" => Val::Tup(vec![Val::U(i as u128 % 251), Val::some(v)]),
        _ if i % 3 == 1 => Val::Enum(2, vec![Val::Seq(vec![Val::Enum(0, vec![]), v])]),
        _ if i % 3 == 2 => Val::Enum(1, vec![v, Val::U(i as u128 % 251), Val::Enum(0, vec![])]),
        _ => Val::Enum(1, vec![Val::Enum(0, vec![]), Val::U(i as u128 % 251), v]),
    })
}
pub const LONG: &[&str] = &[
    "String",
    "Vec<u8>",
    "Vec<u32>",
    "Vec<String>",
    "Vec<Option<i32>>",
    "LinkedList<i16>",
    "BTreeMap<String, u32>",
    "HashMap<String, Vec<u8>>",
    "HashSet<String>",
    "BTreeSet<String>",
    "Vec<()>",
];
fn pick_len(ctx: &mut Ctx) -> usize {
    let k = ctx.pick(301 + LENS.len());
    if k <= 300 {
        k
    } else {
        LENS[k - 301]
    }
}

/// One task per type and one per flat container.
fn tasks(
    list: Vec<Ops>,
    th: bool,
    dev: usize,
    nonfinite: bool,
    f: impl Fn(&mut Ctx, &Ops, Val) + Send + Sync + Clone + 'static,
) -> Vec<Task> {
    let mut out = vec![];
    for o in list {
        if LONG.contains(&&o.name[..]) {
            let (o, f) = (o.clone(), f.clone());
            out.push(task(format!("{} of every length", o.name), 0, 1, move |ctx| {
                let n = pick_len(ctx);
                let v = long(&o.schema, n);
                f(ctx, &o, v)
            }));
        }
        if matches!(&o.name[..], "List" | "Tree") {
            let (o, f) = (o.clone(), f.clone());
            out.push(task(format!("{} of every depth", o.name), 0, 1, move |ctx| {
                let n = ctx.pick(301);
                f(ctx, &o, deep(&o.name, n))
            }));
        }
        let f = f.clone();
        // the value space of large types explodes with two deviations
        let d = if th && matches!(&o.name[..], "Big") { 1 } else { dev };
        out.push(task(o.name.clone(), d, 2, move |ctx| {
            let v = gen(ctx, &o.schema, th, nonfinite);
            f(ctx, &o, v)
        }));
    }
    // the largest first
    out
}

const AROUND: &[(&[u8], &[u8])] = &[
    (b"", b""),
    (&[0xff; 3], b""),
    (b"", &[0]),
    (b"\x01\x02\x03\x04\x05", &[0xff; 9]),
    (&[0; 16], &[1, 0, 0, 0, 0, 0, 0, 0, 0]),
];

pub fn c01(th: bool) -> Plan {
    let dev = 2;
    let t = tasks(bins(), th, dev, true, |ctx, o, v| {
        let b = o.bin.unwrap();
        let r = ctx.guard(&[o.name.as_bytes()], usize::MAX, || {
            let enc = (b.ser)(&v);
            let mut bad = vec![];
            match (b.de)(&enc) {
                Ok(w) if w == v => {}
                r => bad.push(format!("decodes to {}", show(&r))),
            }
            for (pre, post) in AROUND {
                let mut buf = pre.to_vec();
                buf.extend(&enc);
                buf.extend(*post);
                let mut at = pre.len();
                let r = (b.de_at)(&buf, &mut at);
                if !matches!(&r, Ok(w) if *w == v) {
                    bad.push(format!("at offset {} before {} decodes to {}", pre.len(), hex(post), show(&r)));
                } else if at != pre.len() + enc.len() {
                    bad.push(format!("leaves the offset at {at}, not {}", pre.len() + enc.len()));
                }
            }
            (enc, bad)
        });
        ctx.trace();
        match r {
            Ok((enc, bad)) => {
                ctx.state(&[o.name.as_bytes(), &enc]);
                ctx.sample(|| format!("{}: {:?} <-> {}", o.name, v, hex(&enc)));
                if let Some(b) = bad.first() {
                    ctx.violation(&show(&v), &format!("{} value {} written as {}: {b}", o.name, show(&v), hex(&enc)));
                }
            }
            Err(p) => ctx.violation(&show(&v), &format!("{} value {}: {p}", o.name, show(&v))),
        }
    });
    Plan::new(
        "every value of every type within the bounds is encoded by the crate, decoded again alone and between other bytes, and compared with the model value; a state is a distinct encoding",
        bounds(th, dev),
        t,
    )
}

pub fn c02(th: bool) -> Plan {
    let dev = 2;
    let mut t = tasks(bins(), th, dev, true, |ctx, o, v| {
        let b = o.bin.unwrap();
        let mut want = vec![];
        encode(&o.schema, &v, &mut want);
        let un = o.schema.unordered();
        let r = ctx.guard(&[o.name.as_bytes(), &want], usize::MAX, || {
            let enc = (b.ser)(&v);
            if !un && enc != want {
                return Err(format!("is written as {}", hex(&enc)));
            }
            // items in any order: the content and the size count
            let mut at = 0;
            match decode(&o.schema, &enc, &mut at) {
                Ok(w) if w == v && at == enc.len() && enc.len() == want.len() => {}
                r => return Err(format!("is written as {}, which denotes {}", hex(&enc), show(&r))),
            }
            let mut out = vec![9, 8, 7];
            (b.ser_into)(&v, &mut out);
            if out[..3] != [9, 8, 7] || out.len() != 3 + want.len() || !un && out[3..] != want[..] {
                return Err(format!("behind 09 08 07 it is written as {}", hex(&out)));
            }
            match (b.de)(&want) {
                Ok(w) if w == v => Ok(()),
                r => Err(format!("is read as {}", show(&r))),
            }
        });
        ctx.trace();
        ctx.state(&[o.name.as_bytes(), &want]);
        ctx.sample(|| format!("{}: {:?} -> {}", o.name, v, hex(&want)));
        if let Err(p) = r.and_then(|r| r) {
            ctx.violation(&show(&v), &format!("{} value {} with the layout {}: {p}", o.name, show(&v), hex(&want)));
        }
    });
    for (name, s, ser) in
        [slice_bin::<u8>("[u8]"), slice_bin::<E>("[E]"), slice_bin::<Vec<u16>>("[Vec<u16>]"), slice_bin::<String>("[String]")]
    {
        t.push(task(format!("slice {name}"), dev, 1, move |ctx| {
            let v = gen(ctx, &s, th, true);
            let mut want = vec![];
            encode(&s, &v, &mut want);
            let r = ctx.guard(&[&want], usize::MAX, || ser(&v));
            ctx.trace();
            ctx.state(&[name.as_bytes(), &want]);
            if r.as_ref().ok() != Some(&want) {
                ctx.violation(&show(&v), &format!("slice {name} {} is written as {}", show(&v), show(&r)));
            }
        }));
    }
    t.extend(super::bytes::tasks(super::bytes::Mode::Accept, th));
    Plan::new(
        "every value of every type within the bounds is encoded by the crate and by an independent encoder of the documented layout, byte for byte (as a multiset where a hasher decides the order), and the reference bytes are decoded by the crate; arbitrary byte strings of the bounded space of C04 which by an independent decoder denote a value are decoded to it",
        bounds(th, dev),
        t,
    )
}

fn round_trip(fl: Format, th: bool) -> Plan {
    let dev = 2;
    let t = tasks(all3(), th, dev, false, move |ctx, o, v| {
        let x = if fl == Format::Json { o.json.unwrap() } else { o.ron.unwrap() };
        let want = after_trip(&o.schema, &v, fl);
        let mut case = String::new();
        let r = ctx.guard(&[o.name.as_bytes()], usize::MAX, || {
            let t = (x.ser)(&v);
            let r = (x.de)(&t);
            (t, r)
        });
        ctx.trace();
        let r = r.map(|(t, r)| {
            case = t;
            r
        });
        ctx.state(&[o.name.as_bytes(), case.as_bytes()]);
        ctx.sample(|| format!("{}: {:?} <-> {}", o.name, v, case));
        match r {
            Ok(Ok(w)) if w == want => {}
            r => ctx.violation(
                &show(&v),
                &format!("{} value {} written as {} is read as {}", o.name, show(&v), cut(&case), show(&r)),
            ),
        }
    });
    Plan::new(
        "every value of every type within the bounds is written and read back by the crate and compared with the model value; a state is a distinct text",
        bounds(th, dev),
        t,
    )
}
pub fn c05(th: bool) -> Plan {
    round_trip(Format::Json, th)
}
pub fn c10(th: bool) -> Plan {
    round_trip(Format::Ron, th)
}

pub fn c06(th: bool) -> Plan {
    let dev = 2;
    let st = rfc::Strict { order: false, nulls: false };
    let list: Vec<Ops> = all3().into_iter().filter(|o| rfc::writes_json(&o.schema)).collect();
    let judge = move |ctx: &mut Ctx, name: &str, s: &S, v: &Val, t: Result<String, String>| {
        ctx.trace();
        match t {
            Err(p) => ctx.violation(&show(v), &format!("{name} value {}: {p}", show(v))),
            Ok(t) => {
                ctx.state(&[name.as_bytes(), t.as_bytes()]);
                ctx.sample(|| format!("{name}: {v:?} -> {t}"));
                match rfc::parse(&t) {
                    Err(e) => ctx.violation(&show(v), &format!("{name} value {} is written as {} which is not JSON: {e}", show(v), cut(&t))),
                    Ok(j) => {
                        if let Err(e) = rfc::check(s, v, &j, st) {
                            ctx.violation(&show(v), &format!("{name} value {} is written as {}: {}", show(v), cut(&t), cut(&e)))
                        }
                    }
                }
            }
        }
    };
    let mut t = tasks(list, th, dev, false, move |ctx, o, v| {
        if matches!(&v, Val::Set(x) if x.len() > 300) || matches!(&v, Val::Map(x) if x.len() > 300) {
            // the comparison is quadratic
            return;
        }
        let x = o.json.unwrap();
        let r = ctx.guard(&[o.name.as_bytes()], usize::MAX, || (x.ser)(&v));
        judge(ctx, &o.name, &o.schema, &v, r);
        const PRE: &str = "{\"x\": [1, ";
        let r = ctx.guard(&[o.name.as_bytes()], usize::MAX, || (x.ser_into)(&v, PRE.to_string()));
        let r = r.and_then(|t| {
            t.strip_prefix(PRE).map(|t| t.to_string()).ok_or_else(|| format!("the output before it is changed: {t}"))
        });
        judge(ctx, &o.name, &o.schema, &v, r);
    });
    for (name, s, ser) in [
        slice_json::<u8>("[u8]"),
        slice_json::<E>("[E]"),
        slice_json::<Vec<u16>>("[Vec<u16>]"),
        slice_json::<Option<String>>("[Option<String>]"),
    ] {
        t.push(task(format!("slice {name}"), dev, 1, move |ctx| {
            let v = gen(ctx, &s, th, false);
            let r = ctx.guard(&[], usize::MAX, || ser(&v));
            judge(ctx, &name, &s, &v, r);
        }));
    }
    t.push(task("str", 0, 1, move |ctx| {
        use nanoserde::SerJson;
        let s = STRS[ctx.pick(STRS.len())];
        let r = ctx.guard(&[], usize::MAX, || {
            let mut st = nanoserde::SerJsonState::new(String::new());
            s.ser_json(0, &mut st);
            st.out
        });
        judge(ctx, "str", &S::Str, &Val::str(s), r);
    }));
    let mut p = Plan::new(
        "every value of every type within the bounds is written by the crate, alone and behind other output, parsed by an independent strict RFC 8259 parser and compared with the model value member by member",
        bounds(th, dev),
        t,
    );
    p.assumptions.push("absent and null both denote None".into());
    p
}

