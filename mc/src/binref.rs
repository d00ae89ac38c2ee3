//! The binary wire layout, independently of the crate.

use crate::schema::*;

pub fn encode(s: &S, v: &Val, o: &mut Vec<u8>) {
    match (s, v) {
        (S::Lazy(f), v) => encode(&f(), v, o),
        (S::Unit, _) => {}
        (S::Bool, Val::Bool(b)) => o.push(*b as u8),
        (S::U(n), Val::U(x)) => (0..*n as u32).for_each(|i| o.push((x >> (8 * i)) as u8)),
        (S::I(n), Val::I(x)) => (0..*n as u32).for_each(|i| o.push((x >> (8 * i)) as u8)),
        (S::F32, Val::F32(x)) => (0..4).for_each(|i| o.push((x >> (8 * i)) as u8)),
        (S::F64, Val::F64(x)) => (0..8).for_each(|i| o.push((x >> (8 * i)) as u8)),
        (S::Str, Val::Str(x)) => {
            len(x.len(), o);
            o.extend(x.bytes());
        }
        (S::Dur, Val::Dur(a, b)) => {
            encode(&S::U(8), &Val::U(*a as u128), o);
            encode(&S::U(4), &Val::U(*b as u128), o);
        }
        (S::Time, Val::Time(a, b)) => {
            o.push(1);
            encode(&S::Dur, &Val::Dur(*a, *b), o)
        }
        (S::Opt(t), Val::Opt(x)) => match x {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                encode(t, x, o)
            }
        },
        (S::Seq(t), Val::Seq(x)) | (S::Set(t, _), Val::Set(x)) => {
            len(x.len(), o);
            x.iter().for_each(|x| encode(t, x, o));
        }
        (S::Slice(t), Val::Seq(x)) => x.iter().for_each(|x| encode(t, x, o)),
        (S::Map(k, t, _), Val::Map(x)) => {
            len(x.len(), o);
            for (a, b) in x {
                encode(k, a, o);
                encode(t, b, o);
            }
        }
        (S::Arr(_, t), Val::Tup(x)) => x.iter().for_each(|x| encode(t, x, o)),
        (S::Tup(ts), Val::Tup(x)) => ts.iter().zip(x).for_each(|(t, x)| encode(t, x, o)),
        (S::Struct(st), v) => {
            if let Some(p) = &st.proxy {
                return encode(&p.ty, &(p.to)(v), o);
            }
            fields(&st.fields, v.items(), o)
        }
        (S::Enum(e), v) => {
            if let Some(p) = &e.proxy {
                return encode(&p.ty, &(p.to)(v), o);
            }
            let Val::Enum(k, x) = v else { panic!() };
            o.push(*k as u8);
            o.push((*k >> 8) as u8);
            fields(&e.variants[*k].fields, x, o)
        }
        _ => panic!("value does not fit the schema: {v:?}"),
    }
}
fn len(n: usize, o: &mut Vec<u8>) {
    encode(&S::U(8), &Val::U(n as u128), o)
}
fn fields(fs: &[FieldS], x: &[Val], o: &mut Vec<u8>) {
    for (f, x) in fs.iter().zip(x) {
        if f.skip {
            continue;
        }
        match &f.proxy {
            Some(p) => encode(&p.ty, &(p.to)(x), o),
            None => encode(&f.ty, x, o),
        }
    }
}

/// Why bytes do not denote a value.
#[derive(Debug, Clone)]
pub enum Bad {
    /// Rejected; the item which is at fault starts at .0 and ends at .1
    Reject(usize, usize, &'static str),
    /// The property leaves open what happens.
    Gray(&'static str),
}

fn take(d: &[u8], o: &mut usize, n: usize) -> Result<u128, Bad> {
    if d.len() - *o < n {
        return Err(Bad::Reject(*o, d.len(), "truncated"));
    }
    let mut x = 0u128;
    for i in 0..n {
        x |= (d[*o + i] as u128) << (8 * i);
    }
    *o += n;
    Ok(x)
}

/// The least number of bytes an encoding takes.
pub fn min_size(s: &S, depth: usize) -> usize {
    if depth > 8 {
        return 0;
    }
    let fs = |f: &[FieldS]| -> usize {
        f.iter()
            .filter(|f| !f.skip)
            .map(|f| min_size(f.proxy.as_ref().map_or(&f.ty, |p| &p.ty), depth + 1))
            .sum()
    };
    match s {
        S::Lazy(f) => min_size(&f(), depth + 1),
        S::Unit => 0,
        S::Arr(n, t) => n * min_size(t, depth + 1),
        S::Tup(t) => t.iter().map(|t| min_size(t, depth + 1)).sum(),
        S::Struct(st) => match &st.proxy {
            Some(p) => min_size(&p.ty, depth + 1),
            None => fs(&st.fields),
        },
        _ => 1,
    }
}

pub fn decode(s: &S, d: &[u8], o: &mut usize) -> Result<Val, Bad> {
    let start = *o;
    Ok(match s {
        S::Lazy(f) => decode(&f(), d, o)?,
        S::Unit => Val::Unit,
        S::Bool => match take(d, o, 1)? {
            0 => Val::Bool(false),
            1 => Val::Bool(true),
            _ => return Err(Bad::Gray("bool above 1")),
        },
        S::U(n) => Val::U(take(d, o, *n as usize)?),
        S::I(n) => {
            let x = take(d, o, *n as usize)? as i128;
            let k = 128 - 8 * *n as u32;
            Val::I(x << k >> k)
        }
        S::F32 => Val::F32(take(d, o, 4)? as u32),
        S::F64 => Val::F64(take(d, o, 8)? as u64),
        S::Str => {
            let n = take(d, o, 8)?;
            if n > (d.len() - *o) as u128 {
                return Err(Bad::Reject(start, d.len(), "truncated string"));
            }
            let b = &d[*o..*o + n as usize];
            *o += n as usize;
            match std::str::from_utf8(b) {
                Ok(s) => Val::str(s),
                Err(_) => return Err(Bad::Reject(start, *o, "not UTF-8")),
            }
        }
        S::Dur => {
            let a = take(d, o, 8)?;
            let b = take(d, o, 4)?;
            if b == 1_000_000_000 {
                return Err(Bad::Gray("nanos of exactly one second"));
            }
            if b > 1_000_000_000 {
                return Err(Bad::Reject(start, *o, "nanos out of range"));
            }
            Val::Dur(a as u64, b as u32)
        }
        S::Time => match take(d, o, 1)? {
            1 => match decode(&S::Dur, d, o)? {
                Val::Dur(a, b) if a <= i64::MAX as u64 => Val::Time(a, b),
                _ => return Err(Bad::Reject(start, *o, "time out of range")),
            },
            _ => return Err(Bad::Gray("absent time")),
        },
        S::Opt(t) => match take(d, o, 1)? {
            0 => Val::none(),
            1 => Val::some(decode(t, d, o)?),
            _ => return Err(Bad::Gray("option tag above 1")),
        },
        S::Seq(t) | S::Set(t, _) => {
            let n = take(d, o, 8)?;
            if min_size(t, 0) == 0 && n > 70000 {
                return Err(Bad::Gray("many items of no size"));
            }
            let mut v = vec![];
            for _ in 0..n {
                v.push(decode(t, d, o)?)
            }
            if let S::Set(..) = s {
                v.sort();
                let k = v.len();
                v.dedup();
                if k != v.len() {
                    return Err(Bad::Gray("duplicate set items"));
                }
                Val::Set(v)
            } else {
                Val::Seq(v)
            }
        }
        S::Slice(_) => panic!("slices are not read"),
        S::Map(k, t, _) => {
            let n = take(d, o, 8)?;
            if min_size(k, 0) + min_size(t, 0) == 0 && n > 70000 {
                return Err(Bad::Gray("many items of no size"));
            }
            let mut v = vec![];
            for _ in 0..n {
                let a = decode(k, d, o)?;
                let b = decode(t, d, o)?;
                v.push((a, b))
            }
            v.sort();
            if v.windows(2).any(|w| w[0].0 == w[1].0) {
                return Err(Bad::Gray("duplicate keys"));
            }
            Val::Map(v)
        }
        S::Arr(n, t) => {
            let mut v = vec![];
            for _ in 0..*n {
                v.push(decode(t, d, o)?)
            }
            Val::Tup(v)
        }
        S::Tup(ts) => {
            let mut v = vec![];
            for t in ts {
                v.push(decode(t, d, o)?)
            }
            Val::Tup(v)
        }
        S::Struct(st) => {
            if let Some(p) = &st.proxy {
                return Ok((p.from)(&decode(&p.ty, d, o)?));
            }
            Val::Tup(de_fields(&st.fields, d, o)?)
        }
        S::Enum(e) => {
            if let Some(p) = &e.proxy {
                return Ok((p.from)(&decode(&p.ty, d, o)?));
            }
            let k = take(d, o, 2)? as usize;
            if k >= e.variants.len() {
                return Err(Bad::Reject(start, *o, "unknown variant"));
            }
            Val::Enum(k, de_fields(&e.variants[k].fields, d, o)?)
        }
    })
}
fn de_fields(fs: &[FieldS], d: &[u8], o: &mut usize) -> Result<Vec<Val>, Bad> {
    let mut v = vec![];
    for f in fs {
        v.push(if f.skip {
            f.skip_default(crate::gen::Format::Bin)
        } else {
            match &f.proxy {
                Some(p) => (p.from)(&decode(&p.ty, d, o)?),
                None => decode(&f.ty, d, o)?,
            }
        });
    }
    Ok(v)
}
