//! Numbers and numerals: C20.

use super::*;
use crate::engine::*;
use crate::gen::{F32S, F64S};
use crate::lexref::Flavor;
use crate::schema::*;
use crate::textref::*;
use crate::types::*;

/// Which part of the number handling a property is about.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Part {
    All,
    /// binary, both ways
    Bin,
    /// written and read back, as which format
    Trip(Flavor),
    /// written, to be read by a strict parser
    Rfc,
    /// read, when it denotes a value or when it does not
    Read(Flavor, Mode),
}
use crate::looks::Mode;
impl Part {
    fn trips(self, fl: Flavor) -> bool {
        self == Part::All || self == Part::Trip(fl)
    }
    fn bin(self) -> bool {
        matches!(self, Part::All | Part::Bin)
    }
    fn reads(self, fl: Flavor, accept: bool) -> bool {
        match self {
            Part::All => true,
            Part::Read(f, m) => f == fl && (m == Mode::Accept) == accept,
            _ => false,
        }
    }
}

fn want_text(ctx: &mut Ctx, o: &Ops, fl: Flavor, text: &str, part: Part) {
    if !part.reads(fl, true) && !part.reads(fl, false) {
        return;
    }
    let x = if fl == Flavor::Json { o.json.unwrap() } else { o.ron.unwrap() };
    let (_, w) = verdict(&o.schema, text, fl);
    if matches!(w, Err(Bad::Gray(_))) || !part.reads(fl, w.is_ok()) {
        return;
    }
    ctx.trace();
    ctx.stats.counted_states += 1;
    let r = ctx.guard(&[o.name.as_bytes(), b" ", text.as_bytes()], usize::MAX, || (x.de)(text));
    let ok = match (&w, &r) {
        (Ok(w), Ok(Ok(v))) => w == v,
        (Err(_), Ok(Err(_))) => true,
        _ => false,
    };
    if !ok {
        ctx.violation(
            &format!("{} {text}", o.name),
            &format!("{:?} {} from {} is read as {}, but it denotes {}", fl, o.name, cut(text), show(&r), show(&w)),
        );
    }
}

/// All three formats, both ways.
fn trip(ctx: &mut Ctx, o: &Ops, v: &Val, finite: bool, part: Part) {
    if matches!(part, Part::Read(..)) || part != Part::All && part != Part::Bin && (!finite || o.json.is_none()) {
        return;
    }
    ctx.trace();
    ctx.stats.counted_states += 1;
    let mut t = [String::new(), String::new()];
    let r = ctx.guard(&[o.name.as_bytes()], usize::MAX, || {
        if part.bin() {
            let b = o.bin.unwrap();
            let enc = (b.ser)(v);
            let mut want = vec![];
            crate::binref::encode(&o.schema, v, &mut want);
            if enc != want {
                return Err(format!("is written as {}", hex(&enc)));
            }
            match (b.de)(&enc) {
                Ok(w) if w == *v => {}
                r => return Err(format!("written as {} is read as {}", hex(&enc), show(&r))),
            }
        }
        if !finite {
            return Ok(());
        }
        for (k, (x, fl)) in [(o.json, Flavor::Json), (o.ron, Flavor::Ron)].into_iter().enumerate() {
            let Some(x) = x else { continue };
            if part == Part::Rfc && k == 0 {
                t[k] = (x.ser)(v);
                let j = crate::rfc::parse(&t[k]).map_err(|e| format!("is written as {}, which is no JSON: {e}", t[k]))?;
                crate::rfc::check(&o.schema, v, &j, crate::rfc::Strict { order: false, nulls: false }).map_err(|e| format!("is written as {}: {e}", t[k]))?;
            }
            if !part.trips(fl) {
                continue;
            }
            t[k] = (x.ser)(v);
            match (x.de)(&t[k]) {
                Ok(w) if w == *v => {}
                r => return Err(format!("written as {:?} is read as {}", t[k], show(&r))),
            }
        }
        Ok(())
    });
    if let Err(e) = r.and_then(|r| r) {
        ctx.violation(&show(v), &format!("{} {} {e}", o.name, show(v)));
        return;
    }
    // what is written denotes the number
    if finite {
        for (k, fl) in [Flavor::Json, Flavor::Ron].into_iter().enumerate() {
            if o.json.is_none() || !part.trips(fl) {
                continue;
            }
            let (_, w) = verdict(&o.schema, &t[k], fl);
            if !matches!(&w, Ok(w) if w == v) {
                ctx.violation(&show(v), &format!("{} {} is written as {:?}, which denotes {}", o.name, show(v), t[k], show(&w)));
            }
        }
    }
}

const INTS: &[&str] = &["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64"];

fn int_val(s: &S, x: i128) -> Option<Val> {
    match s {
        S::U(16) => Some(Val::U(x as u128)),
        S::I(16) => Some(Val::I(x)),
        S::U(b) => (x >= 0 && x < 1i128 << (8 * *b as u32)).then_some(Val::U(x as u128)),
        S::I(b) => (x >= -(1i128 << (8 * *b as u32 - 1)) && x < 1i128 << (8 * *b as u32 - 1)).then_some(Val::I(x)),
        _ => panic!(),
    }
}

/// Integers near everything that matters.
fn int_points(near: i128) -> Vec<i128> {
    let mut v = vec![];
    let mut add = |c: i128| {
        for d in -near..=near {
            v.extend(c.checked_add(d));
            v.extend(c.checked_neg().and_then(|c| c.checked_add(d)));
        }
    };
    for k in 0..127 {
        add(1 << k);
    }
    let mut p: i128 = 1;
    for _ in 0..38 {
        for m in 1..=9 {
            if let Some(c) = p.checked_mul(m) {
                add(c)
            }
        }
        // 1, 11, 111 … 99, 12, 123 …
        for m in 1..=9i128 {
            if let Some(c) = ((p - 1) / 9 * 10 + 1).checked_mul(m) {
                add(c)
            }
        }
        p = match p.checked_mul(10) {
            Some(p) => p,
            None => break,
        };
    }
    v.sort();
    v.dedup();
    v
}

fn ints(th: bool, part: Part) -> Vec<Task> {
    let mut out = vec![];
    for o in by_name(INTS) {
        let bits = match &*o.schema {
            S::U(b) | S::I(b) => 8 * *b as u32,
            _ => panic!(),
        };
        let signed = matches!(&*o.schema, S::I(_));
        if bits <= 16 {
            let p = o.clone();
            out.push(task(format!("all {}", o.name), 0, 0, move |ctx| {
                for x in -(1i128 << 16)..1 << 16 {
                    if let Some(v) = int_val(&p.schema, x) {
                        ctx.stats.transitions += 1;
                        trip(ctx, &p, &v, true, part);
                    }
                }
                ctx.sample(|| "every value".into());
            }));
        } else {
            // few bits set, or few cleared
            let p = o.clone();
            let k = if th { 4 } else { 3 };
            out.push(task(format!("sparse {}", o.name), 0, 2, move |ctx| {
                let mut x: u64 = 0;
                let mut below = bits;
                for _ in 0..k {
                    let c = ctx.pick(below as usize + 1) as u32;
                    if c == below {
                        break;
                    }
                    x |= 1 << c;
                    below = c;
                    if c == 0 {
                        break;
                    }
                }
                if ctx.flag() {
                    x = !x;
                }
                let sh = 64 - bits;
                let v = if signed { Val::I((((x << sh) as i64) >> sh) as i128) } else { Val::U(((x << sh) >> sh) as u128) };
                ctx.sample(|| format!("{v:?}"));
                trip(ctx, &p, &v, true, part);
            }));
        }
        // every numeral near a limit or a power, whatever its type
        for fl in [Flavor::Json, Flavor::Ron] {
            let p = o.clone();
            out.push(task(format!("{fl:?} numerals as {}", o.name), 0, 1, move |ctx| {
                let points = int_points(if th { 40 } else { 6 });
                let shape = ctx.pick(6);
                for x in points {
                    ctx.stats.transitions += 1;
                    if shape == 0 {
                        if let Some(v) = int_val(&p.schema, x) {
                            trip(ctx, &p, &v, true, part);
                        }
                    }
                    let t = match shape {
                        0 => format!("{x}"),
                        1 => format!(" {x} "),
                        2 => format!("{x}.0"),
                        3 => format!("{x}e0"),
                        4 => format!("{x}0"),
                        _ => format!("{x}.5"),
                    };
                    want_text(ctx, &p, fl, &t, part);
                }
                for k in 0..400 {
                    ctx.stats.transitions += 1;
                    want_text(ctx, &p, fl, &format!("1{}", "0".repeat(k)), part);
                    want_text(ctx, &p, fl, &format!("-{}", "9".repeat(k + 1)), part);
                }
            }));
        }
    }
    for o in by_name(&["u128", "i128"]) {
        out.push(task(format!("points of {}", o.name), 0, 0, move |ctx| {
            for x in int_points(40) {
                ctx.stats.transitions += 1;
                let v = int_val(&o.schema, x).unwrap();
                trip(ctx, &o, &v, true, part);
            }
            for k in 0..128 {
                for l in 0..128 {
                    for x in [1u128 << k ^ 1 << l, !(1u128 << k ^ 1 << l)] {
                        let v = if o.name == "u128" { Val::U(x) } else { Val::I(x as i128) };
                        trip(ctx, &o, &v, true, part);
                    }
                }
            }
        }));
    }
    out
}

fn floats(th: bool, part: Part) -> Vec<Task> {
    let mut out = vec![];
    let f32o = by_name(&["f32"]).remove(0);
    let f64o = by_name(&["f64"]).remove(0);
    // f32: the upper half of the bits, and some or all of the lower
    let p = f32o.clone();
    out.push(task("bit patterns of f32", 0, 1, move |ctx| {
        let hi = ctx.pick(1 << 10) as u32;
        for mid in 0..64u32 {
            let top = hi << 22 | mid << 16;
            let go = |ctx: &mut Ctx, low: u32| {
                ctx.stats.transitions += 1;
                let x = f32::from_bits(top | low);
                if th {
                    fast32(ctx, x)
                } else {
                    trip(ctx, &p, &Val::F32(top | low), x.is_finite(), part)
                }
            };
            if th {
                for low in 0..1 << 16 {
                    go(ctx, low)
                }
                if ctx.stopped() {
                    return;
                }
            } else {
                for k in 0..16 {
                    go(ctx, 1 << k);
                    go(ctx, !(1 << k) & 0xffff);
                }
                for low in [0, 0xffff, 3, 5, 0x8001, 0x5555, 0xaaaa] {
                    go(ctx, low)
                }
            }
        }
    }));
    let p = f64o.clone();
    out.push(task("bit patterns of f64", 0, 1, move |ctx| {
        let exp = ctx.pick(2048) as u64;
        for sign in 0..2u64 {
            let top = sign << 63 | exp << 52;
            let go = |ctx: &mut Ctx, m: u64| {
                ctx.stats.transitions += 1;
                trip(ctx, &p, &Val::F64(top | m), exp != 2047, part);
            };
            const ALL: u64 = (1 << 52) - 1;
            go(ctx, 0);
            go(ctx, ALL);
            for k in 0..52 {
                go(ctx, 1 << k);
                go(ctx, ALL ^ 1 << k);
                go(ctx, (1 << k) - 1);
                go(ctx, ALL & !((1 << k) - 1));
                for l in 0..k {
                    if th || l % 4 == exp % 4 {
                        go(ctx, 1 << k | 1 << l);
                        go(ctx, ALL ^ (1 << k | 1 << l));
                    }
                }
            }
        }
    }));
    // decimal numerals at and around the middle between two floats, where a
    // second rounding shows
    let p = f32o.clone();
    out.push(task("middles of f32", 0, 1, move |ctx| {
        let exp = ctx.pick(255) as u32;
        let fl = [Flavor::Json, Flavor::Ron][ctx.pick(2)];
        let mut mant: Vec<u32> = vec![0, 1, 2, 3, 0x7ffffe, 0x7fffff, 0x555555, 0x2aaaaa, 0x400000, 0x3fffff];
        mant.extend((0..23).map(|k| 1 << k));
        if th {
            mant.extend((0..23).flat_map(|k| (0..k).map(move |l| 1 << k | 1 << l)));
        }
        for m in mant {
            let a = f32::from_bits(exp << 23 | m);
            let b = f32::from_bits((exp << 23 | m) + 1);
            let mid = if b.is_finite() { (a as f64 + b as f64) / 2.0 } else { a as f64 + (a as f64 - f32::from_bits((exp << 23 | m) - 1) as f64) / 2.0 };
            // exact, and then a hair up and down
            let exact = format!("{mid:.160}");
            let exact = exact.trim_end_matches('0').trim_end_matches('.').to_string();
            let dot = exact.contains('.');
            ctx.stats.transitions += 3;
            want_text(ctx, &p, fl, &exact, part);
            want_text(ctx, &p, fl, &format!("-{exact}"), part);
            for tail in ["0000000000000000000000000001", "1"] {
                let up = if dot { format!("{exact}{tail}") } else { format!("{exact}.{tail}") };
                want_text(ctx, &p, fl, &up, part);
            }
            // a hair below: the last digit, which is no zero, minus one, and nines
            let mut down: Vec<u8> = exact.clone().into_bytes();
            let last = down.len() - 1;
            if dot {
                down[last] -= 1;
                let mut s = String::from_utf8(down).unwrap();
                s += "99999999999999999999999999";
                want_text(ctx, &p, fl, &s, part);
            }
            // and as the two doubles next to it
            for x in [f64::from_bits(mid.to_bits() + 1), f64::from_bits(mid.to_bits().max(1) - 1), mid] {
                want_text(ctx, &p, fl, &format!("{x:e}"), part);
                want_text(ctx, &p, fl, &format!("{x:?}"), part);
            }
        }
    }));
    let p = f64o.clone();
    out.push(task("middles of f64", 0, 1, move |ctx| {
        let exp = ctx.pick(2047) as u64;
        let fl = [Flavor::Json, Flavor::Ron][ctx.pick(2)];
        for m in [0u64, 1, 2, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, 0x5555555555555] {
            let a = f64::from_bits(exp << 52 | m);
            ctx.stats.transitions += 1;
            for t in [format!("{a:.1100}"), format!("{a:e}"), format!("{a:.17e}"), format!("{a:.20e}"), format!("{a:?}")] {
                want_text(ctx, &p, fl, &t, part);
            }
            // the middle to the next: doubling is exact, so is appending a half
            let b = f64::from_bits((exp << 52 | m) + 1);
            if b.is_finite() && exp > 2 && exp < 1500 {
                let mid = middle(a, b);
                want_text(ctx, &p, fl, &mid, part);
                want_text(ctx, &p, fl, &format!("{mid}1"), part);
                want_text(ctx, &p, fl, &format!("{mid}00000000000000000000000000000001"), part);
            }
        }
    }));
    out
}

/// The exact decimal of the middle between two neighbours.
fn middle(a: f64, b: f64) -> String {
    // both exactly, as digits
    let dig = |x: f64| format!("{x:.1100}");
    let (x, y) = (dig(a), dig(b));
    let n = x.len().max(y.len());
    let pad = |s: String| format!("{s:0>n$}").into_bytes();
    let (x, y) = (pad(x), pad(y));
    let mut sum = vec![0u8; n];
    let mut c = 0;
    for i in (0..n).rev() {
        if x[i] == b'.' {
            sum[i] = b'.';
            continue;
        }
        let s = x[i] - b'0' + y[i] - b'0' + c;
        sum[i] = s % 10 + b'0';
        c = s / 10;
    }
    let mut out = String::new();
    let mut rem = c;
    for d in sum {
        if d == b'.' {
            out.push('.');
            continue;
        }
        let v = rem * 10 + d - b'0';
        out.push((b'0' + v / 2) as char);
        rem = v % 2;
    }
    if rem == 1 {
        out.push('5');
    }
    let t = out.trim_start_matches('0');
    let t = if t.starts_with('.') { format!("0{t}") } else { t.to_string() };
    t.trim_end_matches('0').trim_end_matches('.').to_string()
}

/// Without the model, for all of them.
fn fast32(ctx: &mut Ctx, x: f32) {
    use nanoserde::*;
    ctx.stats.traces += 1;
    ctx.stats.counted_states += 1;
    let same = |y: f32| y.to_bits() == x.to_bits();
    let r = std::panic::catch_unwind(|| {
        let b = x.serialize_bin();
        if b != x.to_le_bytes() || !f32::deserialize_bin(&b).is_ok_and(same) {
            return Some(format!("binary {}", hex(&b)));
        }
        if x.is_finite() {
            let t = x.serialize_json();
            if !f32::deserialize_json(&t).is_ok_and(same) || !t.parse().is_ok_and(same) {
                return Some(format!("JSON {t}"));
            }
            let t = x.serialize_ron();
            if !f32::deserialize_ron(&t).is_ok_and(same) || !t.parse().is_ok_and(same) {
                return Some(format!("RON {t}"));
            }
        }
        None
    });
    match r {
        Ok(None) => {}
        r => ctx.violation(&format!("{:08x}", x.to_bits()), &format!("f32 {x:e} (bits {:08x}): {:?}", x.to_bits(), r.ok().flatten())),
    }
}

/// All numerals over an alphabet.
fn numerals(th: bool, part: Part) -> Vec<Task> {
    let mut out = vec![];
    let types = ["f64", "f32", "u8", "i8", "u64", "i64", "u16", "i32", "usize"];
    for (n, o) in by_name(&types).into_iter().enumerate() {
        for fl in [Flavor::Json, Flavor::Ron] {
            let o = o.clone();
            let len = match (n < 2, th) {
                (true, false) | (false, true) => 7,
                (true, true) => 8,
                (false, false) => 6,
            };
            out.push(task(format!("{fl:?} words as {}", o.name), 0, 2, move |ctx| {
                const ABC: &[u8] = b"0159.eE+-";
                fn grow(ctx: &mut Ctx, o: &Ops, fl: Flavor, t: &mut String, left: usize, part: Part) {
                    if !t.is_empty() {
                        want_text(ctx, o, fl, t, part);
                        // a numeral needs some order
                        if t.matches('.').count() > 1 || t.matches(['e', 'E']).count() > 1 || t.matches(['+', '-']).count() > 2 {
                            return;
                        }
                    }
                    if left == 0 || ctx.stopped() {
                        return;
                    }
                    for c in ABC {
                        ctx.stats.transitions += 1;
                        t.push(*c as char);
                        grow(ctx, o, fl, t, left - 1, part);
                        t.pop();
                    }
                }
                let mut t = String::new();
                t.push(ABC[ctx.pick(ABC.len())] as char);
                t.push(ABC[ctx.pick(ABC.len())] as char);
                grow(ctx, &o, fl, &mut t, len - 2, part);
            }));
        }
    }
    // exponents
    for o in by_name(&["f64", "f32"]) {
        for fl in [Flavor::Json, Flavor::Ron] {
            let o = o.clone();
            out.push(task(format!("{fl:?} exponents of {}", o.name), 0, 1, move |ctx| {
                let m = ["1", "9", "1.5", "9.999999999999999999999", "0.1", "0.000001", "123456789012345678901234567890", "4.9", "2.4703282292062327", "1.7976931348623158", "3.4028235677973366", "7.006492321624085", "1.401298464324817", "0", "-1", "-0", "0.0"][ctx.pick(17)];
                for e in -400i32..=400 {
                    ctx.stats.transitions += 1;
                    for x in ["e", "E"] {
                        want_text(ctx, &o, fl, &format!("{m}{x}{e}"), part);
                        want_text(ctx, &o, fl, &format!("{m}{x}{e:+}"), part);
                        want_text(ctx, &o, fl, &format!("{m}{x}{}{:03}", if e < 0 { "-" } else { "+" }, e.abs()), part);
                    }
                }
            }));
        }
    }
    out
}

/// Numbers inside of others.
fn inside() -> Vec<Task> {
    use nanoserde::*;
    let mut out = vec![];
    macro_rules! one {
        ($t:ident, $vals:expr) => {{
            let name = stringify!($t);
            out.push(task(format!("{name} inside of containers"), 0, 1, move |ctx| {
                let vals: Vec<$t> = $vals;
                let x = vals[ctx.pick(vals.len())];
                let step = 1 + vals.len() / 40;
                let y = vals[ctx.pick(vals.len() / step) * step];
                ctx.trace();
                ctx.stats.counted_states += 1;
                let bits = |v: &Vec<$t>| v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>();
                let r = ctx.guard(&[name.as_bytes()], usize::MAX, || {
                    let v = vec![x, y, x];
                    let t = (x, [y, x], Some(y));
                    let mut bad = vec![];
                    macro_rules! both {
                        ($ser:ident, $de:ident) => {
                            let a = v.$ser();
                            let got = Vec::<$t>::$de(&a).map(|g| bits(&g)).map_err(|e| e.to_string());
                            if got.as_ref().ok() != Some(&bits(&v)) {
                                bad.push(format!("{:?} as {:?} is read as {got:?}", v, a));
                            }
                            let a = t.$ser();
                            let got = <($t, [$t; 2], Option<$t>)>::$de(&a).map(|g| format!("{g:?}")).map_err(|e| e.to_string());
                            if got.as_ref().ok() != Some(&format!("{t:?}")) {
                                bad.push(format!("{:?} as {:?} is read as {got:?}", t, a));
                            }
                        };
                    }
                    both!(serialize_bin, deserialize_bin);
                    both!(serialize_json, deserialize_json);
                    both!(serialize_ron, deserialize_ron);
                    bad
                });
                match r {
                    Ok(bad) => {
                        if let Some(b) = bad.first() {
                            ctx.violation(&format!("{x:?} {y:?}"), b)
                        }
                    }
                    Err(p) => ctx.violation(&format!("{x:?} {y:?}"), &format!("{x:?}, {y:?}: {p}")),
                }
            }));
        }};
    }
    macro_rules! int {
        ($($t:ident)*) => {$(
            one!($t, int_points(1).into_iter().filter_map(|x| <$t>::try_from(x).ok()).chain([<$t>::MIN, <$t>::MAX]).collect());
        )*};
    }
    int!(u8 u16 u32 u64 usize i8 i16 i32 i64);
    one!(f32, F32S.iter().copied().chain((0..255).map(|e| f32::from_bits(e << 23 | 0x12345))).collect());
    one!(f64, F64S.iter().copied().chain((0..2047).step_by(7).map(|e| f64::from_bits(e << 52 | 0x123456789))).collect());
    out
}

/// The numbers of a part, for the other properties.
pub fn for_part(th: bool, part: Part) -> Vec<Task> {
    let mut t = vec![];
    match part {
        Part::Read(..) => {
            t.extend(numerals(false, part));
            t.extend(ints(th, part).into_iter().filter(|t| t.name.contains("numerals")));
            if part == Part::Read(Flavor::Json, Mode::Accept) || part == Part::Read(Flavor::Ron, Mode::Accept) {
                t.extend(floats(false, part).into_iter().filter(|t| t.name.contains("middles")));
            }
        }
        _ => {
            t.extend(ints(th, part).into_iter().filter(|t| !t.name.contains("Ron numerals")));
            t.extend(floats(false, part).into_iter().filter(|t| t.name.contains("bit patterns")));
        }
    }
    t
}

pub fn c20(th: bool) -> Plan {
    let part = Part::All;
    let mut t = floats(th, part);
    t.extend(ints(th, part));
    t.extend(numerals(th, part));
    t.extend(inside());
    let mut p = Plan::new(
        "numbers are written and read back in every format and what is written is decoded by an independent decoder; numerals are read as what an independent decoder says or rejected; every case is a distinct number or numeral of its task",
        format!(
            "every value of the 8 and 16 bit integers; of the wider ones those with up to {} bits set or cleared and the surroundings of powers of 2 and multiples of powers of 10; {} f32; f64 of every exponent with sparse mantissas; numerals at and next to the middle between neighbouring floats; all words of up to {} characters of 0159.eE+-; 801 exponents x 17 mantissas; pairs inside of containers",
            if th { 4 } else { 3 },
            if th { "all 2^32 bit patterns of" } else { "2.5 million bit patterns (every upper half, sparse lower halves) of" },
            if th { "7 or 8" } else { "6 or 7" },
        ),
        t,
    );
    p.assumptions.push("str::parse of the standard library rounds correctly".into());
    p
}
