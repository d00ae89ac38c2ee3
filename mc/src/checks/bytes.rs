//! Arbitrary bytes decoded as every type: C03, C04, the binary part of C19
//! and the accepting half of C02.

use super::*;
use crate::binref::{decode, encode, Bad};
use crate::engine::*;
use crate::gen::*;
use crate::schema::*;
use crate::types::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// returns, in bounded memory
    Total,
    /// what is no encoding is rejected, and nothing is misread
    Reject,
    /// what is an encoding is accepted
    Accept,
    /// errors point at the item
    Pos,
}

/// Run the decoder on some bytes; whether more bytes could change anything.
pub fn look(ctx: &mut Ctx, m: Mode, o: &Ops, d: &[u8]) -> bool {
    let b = o.bin.unwrap();
    let mut at = 0;
    let want = decode(&o.schema, d, &mut at);
    if let Err(Bad::Gray("many items of no size")) = want {
        return false;
    }
    let more = matches!(want, Err(Bad::Reject(_, e, _)) if e == d.len());
    ctx.state(&[o.name.as_bytes(), d]);
    ctx.trace();
    let say = |r: &dyn std::fmt::Debug, w: &str| {
        format!("{} from {}: {w}: {}, reference: {}", o.name, hex(d), show(&r), show(&want))
    };
    if m == Mode::Total {
        // up to 70000 items of no size may take memory nevertheless
        let free = o.schema.any(0, &|s| matches!(s, S::Seq(t) | S::Set(t, _) if crate::binref::min_size(t, 0) == 0));
        let limit = if free { 8 << 20 } else { 16 << 10 } + 512 * d.len();
        if let Err(p) = ctx.guard(&[o.name.as_bytes(), b": ", d], limit, || (b.probe)(d)) {
            ctx.violation(&hex(d), &format!("{} from {}: {p}", o.name, hex(d)));
        }
        return more;
    }
    let mut off = 0;
    let r = match ctx.guard(&[o.name.as_bytes(), b": ", d], usize::MAX, || (b.de_at)(d, &mut off)) {
        Ok(r) => r,
        Err(p) => {
            // C03 has the say on panics, but they are no value either
            if m == Mode::Reject || m == Mode::Accept {
                ctx.violation(&hex(d), &say(&p, "panics"));
            }
            return more;
        }
    };
    match m {
        Mode::Reject => match (&want, &r) {
            (Ok(v), Ok(w)) if v != w || at != off => ctx.violation(&hex(d), &say(&(r, off), "misread")),
            (Err(Bad::Reject(..)), Ok(_)) => ctx.violation(&hex(d), &say(&(r, off), "accepted")),
            _ => {}
        },
        Mode::Accept => {
            if let Ok(v) = &want {
                if !matches!(&r, Ok(w) if w == v) || at != off {
                    ctx.violation(&hex(d), &say(&(r, off), "not read as it stands"));
                }
            }
        }
        Mode::Pos => {
            let whole = ctx.guard(&[o.name.as_bytes(), b": ", d], usize::MAX, || (b.de)(d));
            if let Err(e) = &r {
                let fits = match &want {
                    Err(Bad::Reject(s, t, _)) => *s <= e.o && e.o <= *t,
                    _ => true,
                };
                let same = matches!(&whole, Ok(Err(f)) if f.o == e.o);
                if e.o > d.len() || !fits || !same || !e.msg.contains(&e.o.to_string()) {
                    ctx.violation(&hex(d), &say(&(&r, &whole), "misplaced error"));
                }
            }
        }
        Mode::Total => unreachable!(),
    }
    more
}

const COUNTS: &[u64] = &[
    1,
    0,
    2,
    3,
    255,
    256,
    4096,
    65536,
    1 << 31,
    (1 << 32) - 1,
    1 << 32,
    (1 << 32) + 1,
    1 << 56,
    1 << 59,
    1 << 60,
    1 << 61,
    (1 << 61) + 1,
    1 << 62,
    (1 << 63) - 1,
    1 << 63,
    u64::MAX - 7,
    u64::MAX - 8,
    u64::MAX,
    u64::MAX / 3 + 1,
    u64::MAX / 12 + 1,
    u64::MAX / 24 + 1,
];
const STRINGS: &[&[u8]] = &[
    b"a",
    b"",
    "é1".as_bytes(),
    b"\xff",
    b"\xc3\x28",
    b"\xed\xa0\x80",
    b"\xf4\x90\x80\x80",
    b"\xc0\x80",
    "😀".as_bytes(),
    b"ab\x80",
    b"a\xe2\x82",
];

/// Types with very many encodings.
const LARGE: &[&str] = &[
    "BTreeMap<String, Vec<Pt>>", "HashMap<String, Vec<u8>>", "Deep", "Vec<BTreeMap<String, u8>>", "(String, String, String)", "Sets", "BTreeMap<String, u32>", "BTreeMap<String, Option<u8>>",
    "Hashes", "HashSet<String>", "BTreeMap<u8, String>", "BTreeMap<String, E>", "LinkedList<Vec<u8>>", "BTreeSet<String>", "Vec<Vec<u8>>", "Gn<u8, String>", "Vec<String>", "Gn<Vec<E>, Option<u8>>",
    "Vec<New>", "Opts", "Wrap", "Mix",
];

/// Bytes which are an encoding but for what the choices make of them.
fn gen_bytes(c: &mut Ctx, s: &S, free: &mut usize, o: &mut Vec<u8>, depth: usize) {
    let mut choose = |c: &mut Ctx, n: usize| {
        if *free > 0 && n > 1 {
            *free -= 1;
            c.pick(n)
        } else {
            c.dev(n)
        }
    };
    let num = |o: &mut Vec<u8>, n: u8, v: u128| (0..n as u32).for_each(|i| o.push((v >> (8 * i)) as u8));
    if depth > 5 {
        return;
    }
    match s {
        S::Lazy(f) => gen_bytes(c, &f(), free, o, depth),
        S::Unit => {}
        S::Bool => {
            let k = choose(c, 4);
            o.push([1, 0, 2, 255][k])
        }
        S::U(n) | S::I(n) => {
            let k = c.dev(4);
            num(o, *n, [0x0807_0605_0403_0201, 0, u128::MAX, 1 << (8 * *n as u32 - 1)][k])
        }
        S::F32 | S::F64 => {
            let n = if matches!(s, S::F32) { 4 } else { 8 };
            let k = c.dev(3);
            num(o, n, [0x3ff8_0000_3fc0_0000, u128::MAX, 1][k])
        }
        S::Str => {
            let k = choose(c, STRINGS.len() + COUNTS.len());
            if k < STRINGS.len() {
                num(o, 8, STRINGS[k].len() as u128);
                o.extend(STRINGS[k]);
            } else {
                num(o, 8, COUNTS[k - STRINGS.len()] as u128);
                o.extend(b"abc");
            }
        }
        S::Dur => {
            let a = choose(c, 5);
            num(o, 8, [1, 0, u64::MAX as u128, i64::MAX as u128, i64::MAX as u128 + 1][a]);
            let b = choose(c, 6);
            num(o, 4, [1, 0, 999_999_999, 1_000_000_000, 1_000_000_001, u32::MAX as u128][b]);
        }
        S::Time => {
            let k = choose(c, 4);
            o.push([1, 0, 2, 255][k]);
            gen_bytes(c, &S::Dur, free, o, depth)
        }
        S::Opt(t) => {
            let k = choose(c, 4);
            o.push([1, 0, 2, 255][k]);
            if k != 1 {
                gen_bytes(c, t, free, o, depth + 1)
            }
        }
        S::Seq(t) | S::Set(t, _) => {
            let n = COUNTS[choose(c, COUNTS.len())];
            num(o, 8, n as u128);
            for _ in 0..n.min(2) {
                gen_bytes(c, t, free, o, depth + 1)
            }
        }
        S::Map(k, t, _) => {
            let n = COUNTS[choose(c, COUNTS.len())];
            num(o, 8, n as u128);
            for _ in 0..n.min(2) {
                gen_bytes(c, k, free, o, depth + 1);
                gen_bytes(c, t, free, o, depth + 1);
            }
        }
        S::Arr(n, t) => (0..*n).for_each(|_| gen_bytes(c, t, free, o, depth)),
        S::Tup(ts) => ts.iter().for_each(|t| gen_bytes(c, t, free, o, depth)),
        S::Struct(st) => st.fields.iter().for_each(|f| gen_bytes(c, &f.ty, free, o, depth)),
        S::Enum(e) => {
            let n = e.variants.len().min(20);
            let k = choose(c, n + 5);
            let len = e.variants.len();
            let k = if k < n { k } else { [len, len + 1, 255, 256, 65535][k - n] };
            num(o, 2, k as u128);
            let v = &e.variants[if k < len { k } else { len - 1 }];
            v.fields.iter().for_each(|f| gen_bytes(c, &f.ty, free, o, depth + 1));
        }
        S::Slice(_) => unreachable!(),
    }
}

const SOME_BYTES: &[u8] = &[0, 1, 2, 3, 0x7f, 0x80, 0xff];

fn trie(ctx: &mut Ctx, m: Mode, o: &Ops, d: &mut Vec<u8>, left: usize) {
    if ctx.stopped() || !look(ctx, m, o, d) || left == 0 {
        return;
    }
    for b in SOME_BYTES {
        ctx.stats.transitions += 1;
        d.push(*b);
        trie(ctx, m, o, d, left - 1);
        d.pop();
    }
}

pub fn tasks(m: Mode, th: bool) -> Vec<Task> {
    let mut out = vec![];
    for o in bins() {
        let p = o.clone();
        out.push(task(format!("fields of {}", o.name), 1, 2, move |ctx| {
            let mut free = if th && !LARGE.contains(&&p.name[..]) { 3 } else { 2 };
            let mut d = vec![];
            gen_bytes(ctx, &p.schema, &mut free, &mut d, 0);
            ctx.sample(|| format!("{} from every prefix of {}", p.name, hex(&d)));
            let n = d.len();
            if n > 400 {
                return;
            }
            for k in 0..=n {
                look(ctx, m, &p, &d[..k]);
            }
            d.extend([0; 9]);
            look(ctx, m, &p, &d[..n + 1]);
            look(ctx, m, &p, &d);
            d.truncate(n);
            d.extend([0xff; 9]);
            look(ctx, m, &p, &d);
        }));
        if super::values::LONG.contains(&&o.name[..]) && o.name != "Vec<()>" {
            let p = o.clone();
            let ns = super::pumps::counts(th);
            out.push(task(format!("long {}", o.name), 0, 1, move |ctx| {
                let n = ns[ctx.pick(ns.len())];
                let v = super::values::long(&p.schema, n);
                let mut d = vec![];
                encode(&p.schema, &v, &mut d);
                ctx.sample(|| format!("{} from damaged encodings of {n} items", p.name));
                look(ctx, m, &p, &d);
                // cut short
                let len = d.len();
                for k in [1, 2, 3, 4, 8, 9, 255, 256, 257, 65535, 65536, 65537] {
                    if k <= len {
                        look(ctx, m, &p, &d[..len - k]);
                    }
                }
                // with a count which is off
                let count = u64::from_le_bytes(d[..8].try_into().unwrap());
                for off in [1, 2, 255, 256, 257, 65535, 65536, 65537, 1 << 32, 1 << 63] {
                    for c in [count.wrapping_add(off), count.wrapping_sub(off)] {
                        ctx.stats.transitions += 1;
                        d[..8].copy_from_slice(&c.to_le_bytes());
                        look(ctx, m, &p, &d);
                    }
                }
                d[..8].copy_from_slice(&count.to_le_bytes());
                // with a fault at the end, in the middle and behind
                for at in [len.wrapping_sub(1), len / 2] {
                    if at < len && at >= 8 {
                        let was = std::mem::replace(&mut d[at], 0xff);
                        look(ctx, m, &p, &d);
                        d[at] = was;
                    }
                }
                d.push(0xff);
                look(ctx, m, &p, &d);
            }));
        }
        if m == Mode::Total && super::values::LONG.contains(&&o.name[..]) && o.name != "Vec<()>" {
            let p = o.clone();
            out.push(task(format!("flood of {}", o.name), 0, 0, move |ctx| {
                let n = 500_000;
                let mut d = vec![];
                encode(&p.schema, &super::values::long(&p.schema, n), &mut d);
                ctx.sample(|| format!("{} from {} bytes", p.name, d.len()));
                look(ctx, m, &p, &d);
                look(ctx, m, &p, &d[..d.len() - 1]);
            }));
        }
        let p = o.clone();
        // more values of small types, and larger ones of large types
        let more = th && !LARGE.contains(&&o.name[..]);
        out.push(task(format!("mutants of {}", o.name), more as usize, 2, move |ctx| {
            let v = Gen::new(if th && !more { 3 } else { 2 }).nonfinite().gen(ctx, &p.schema);
            let mut d = vec![];
            encode(&p.schema, &v, &mut d);
            if d.len() > 200 {
                d.truncate(200);
            }
            ctx.sample(|| format!("{} from every mutant of {}", p.name, hex(&d)));
            look(ctx, m, &p, &d);
            for i in 0..d.len() {
                let was = d[i];
                for b in 0..=255 {
                    ctx.stats.transitions += 1;
                    d[i] = b;
                    look(ctx, m, &p, &d);
                }
                d[i] = was;
                let mut e = d.clone();
                e.remove(i);
                look(ctx, m, &p, &e);
                for b in [0, 1, 255] {
                    let mut e = d.clone();
                    e.insert(i, b);
                    look(ctx, m, &p, &e);
                }
                if i + 8 <= d.len() {
                    let mut e = d.clone();
                    for n in COUNTS {
                        ctx.stats.transitions += 1;
                        e[i..i + 8].copy_from_slice(&n.to_le_bytes());
                        look(ctx, m, &p, &e);
                    }
                }
            }
        }));
        let p = o.clone();
        out.push(task(format!("bytes as {}", o.name), 0, 1, move |ctx| {
            let a = ctx.pick(257);
            let mut d = vec![];
            if a == 256 {
                look(ctx, m, &p, &d);
                return;
            }
            d.push(a as u8);
            if !look(ctx, m, &p, &d) {
                return;
            }
            for b in 0..=255 {
                ctx.stats.transitions += 1;
                d.push(b);
                if SOME_BYTES.contains(&d[0]) && SOME_BYTES.contains(&b) {
                    trie(ctx, m, &p, &mut d, if th { 5 } else { 4 });
                } else {
                    look(ctx, m, &p, &d);
                }
                d.pop();
            }
        }));
    }
    out
}

fn bounds(th: bool) -> String {
    format!(
        "per type: (a) all byte strings of up to 2 bytes, and up to {} bytes over 7 byte values while the input is a proper prefix of an encoding; (b) encodings whose first {} structural fields (counts up to 2^64-1, tags, variant indices, strings, times) take every special value and {} further field(s) as well, all prefixes of each, with trailing bytes; (c) encodings of small values (thorough: less structure for 22 types with very many encodings in (b) and (c)) with every single byte replaced by every value, removed or inserted, and every 8-byte window replaced by {} hostile counts; (d) encodings of flat containers of {} lengths up to {}, cut by 12 lengths, with 20 counts which are off, and with faults at 3 places",
        if th { 7 } else { 6 },
        if th { 3 } else { 2 },
        1,
        COUNTS.len(),
        super::pumps::counts(th).len(),
        super::pumps::counts(th).last().unwrap(),
    )
}

pub fn c03(th: bool) -> Plan {
    let mut p = Plan::new(
        "the decoder runs on every input of the bounded space; it must return without panic, within 16 KiB + 512 bytes per input byte of live memory (counted by the allocator) and within the time limit of one call; a state is a distinct (type, input)",
        bounds(th),
        tasks(Mode::Total, th),
    );
    p.hang_ms = 5000;
    p.assumptions.push("sequences of items which take no bytes are exempt".into());
    p
}
pub fn c04(th: bool) -> Plan {
    Plan::new(
        "the verdict of the decoder on every input of the bounded space is compared with an independent decoder of the documented layout: what that rejects must be rejected, and an accepted input must give its value and its number of consumed bytes; a state is a distinct (type, input)",
        bounds(th),
        tasks(Mode::Reject, th),
    )
}
