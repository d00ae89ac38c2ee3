//! Values one after the other: C23.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::schema::*;
use crate::types::*;

const SEPS: &[&str] = &[" ", "\n", "\t\r\n ", "\n\n  "];

/// Types whose values begin or end in a way which may meet the next one.
const NAMES: &[&str] = &[
    "u8", "i64", "f64", "bool", "String", "Duration", "SystemTime", "Option<u8>", "Option<Pt>", "Vec<u8>", "BTreeMap<String, u32>", "HashSet<u8>",
    "[u8; 0]", "[u8; 2]", "(u8, u16)", "Pt", "NewU", "Duo", "E", "Plain", "Empty", "UnitSt", "()", "Opts", "List", "Wrap", "Vec<E>", "LinkedList<i16>", "Box<u16>",
];

fn describe(items: &[(&Ops, &Val)]) -> String {
    items.iter().map(|(o, v)| format!("{} {}", o.name, show(v))).collect::<Vec<_>>().join("; ")
}

fn run(ctx: &mut Ctx, items: &[(&Ops, &Val)], sep: &str) {
    run_as(ctx, describe(items), items, sep)
}

fn run_as(ctx: &mut Ctx, what: String, items: &[(&Ops, &Val)], sep: &str) {
    ctx.state(&[what.as_bytes(), sep.as_bytes()]);
    // binary
    if items.iter().all(|i| i.0.bin.is_some()) {
        ctx.trace();
        let r = ctx.guard(&[what.as_bytes()], usize::MAX, || {
            let mut out = vec![];
            let mut ends = vec![];
            for (o, v) in items {
                let alone = (o.bin.unwrap().ser)(v);
                let start = out.len();
                (o.bin.unwrap().ser_into)(v, &mut out);
                if out[start..].len() != alone.len() || !o.schema.unordered() && out[start..] != alone[..] {
                    return Err(format!("{} {} is written as {} behind {}, but alone as {}", o.name, show(v), hex(&out[start..]), hex(&out[..start]), hex(&alone)));
                }
                ends.push(out.len());
            }
            let mut at = 0;
            for ((o, v), end) in items.iter().zip(ends) {
                let from = at;
                match (o.bin.unwrap().de_at)(&out, &mut at) {
                    Ok(w) if w == **v && at == end => {}
                    r => return Err(format!("from {} at {from} up to {end}: {} is read as {} up to {at}", hex(&out), o.name, show(&r))),
                }
            }
            Ok(())
        });
        if let Err(e) = r.and_then(|r| r) {
            ctx.violation(&what, &format!("values {what} in binary: {e}"));
        }
    }
    for json in [true, false] {
        let of = |o: &Ops| if json { o.json } else { o.ron };
        if items.iter().any(|i| of(i.0).is_none()) {
            continue;
        }
        let fl = if json { Format::Json } else { Format::Ron };
        ctx.trace();
        let r = ctx.guard(&[what.as_bytes()], usize::MAX, || {
            let mut out = String::new();
            for (o, v) in items {
                let x = of(o).unwrap();
                let alone = (x.ser)(v);
                let start = out.len();
                if !json && items.len() > 5000 {
                    // RON can only be written into an output by copying it
                    out += &alone;
                } else {
                    out = (x.ser_into)(v, out);
                }
                if out.get(start..).map(|s| s.len()) != Some(alone.len()) || !o.schema.unordered() && out[start..] != alone {
                    return Err(format!("{} {} is written as {} behind {start} bytes, but alone as {}", o.name, show(v), show(&out), show(&alone)));
                }
                out += sep;
            }
            let mut st = match if json { TState::json(&out) } else { TState::ron(&out) } {
                Ok(s) => s,
                Err(e) => return Err(format!("{} does not begin with a token: {}", show(&out), e.shown)),
            };
            for (k, (o, v)) in items.iter().enumerate() {
                let want = after_trip(&o.schema, v, fl);
                match (of(o).unwrap().de_next)(&mut st) {
                    Ok(w) if w == want => {}
                    r => return Err(format!("from {}: value {k}, {}, is read as {}", show(&out), o.name, show(&r))),
                }
            }
            if !st.at_end() {
                return Err(format!("{} is not read to its end", show(&out)));
            }
            Ok(())
        });
        if let Err(e) = r.and_then(|r| r) {
            ctx.violation(&what, &format!("values {what} in {}: {e}", if json { "JSON" } else { "RON" }));
        }
    }
}

pub fn c23(th: bool) -> Plan {
    let mut t = vec![];
    // pairs of all types, each side with all values of few deviations
    let all = std::sync::Arc::new(bins());
    for o in all.iter() {
        let (o, all) = (o.clone(), all.clone());
        t.push(task(format!("{} before another", o.name), 1, 1, move |ctx| {
            let p = &all[ctx.pick(all.len())];
            let a = Gen::new(if th { 3 } else { 2 }).gen(ctx, &o.schema);
            let b = Gen::new(if th { 2 } else { 1 }).gen(ctx, &p.schema);
            let sep = SEPS[if th { ctx.pick(SEPS.len()) } else { 0 }];
            ctx.sample(|| describe(&[(&o, &a), (p, &b)]));
            run(ctx, &[(&o, &a), (p, &b)], sep);
        }));
    }
    // longer sequences of fewer
    let few = std::sync::Arc::new(by_name(NAMES));
    let n = if th { 4 } else { 3 };
    for o in few.iter() {
        let (o, few) = (o.clone(), few.clone());
        t.push(task(format!("{} and {} more", o.name, n - 1), 0, 2, move |ctx| {
            let mut ops = vec![&o];
            for _ in 1..n {
                ops.push(&few[ctx.pick(few.len())]);
            }
            let free = if th { 1 } else { 1 };
            let vals: Vec<Val> = ops.iter().map(|o| Gen::new(free).gen(ctx, &o.schema)).collect();
            let items: Vec<(&Ops, &Val)> = ops.into_iter().zip(&vals).collect();
            ctx.sample(|| describe(&items));
            let sep = if th { SEPS[0] } else { SEPS[ctx.pick(SEPS.len())] };
            run(ctx, &items, sep);
        }));
    }
    // any number of them
    for o in few.iter() {
        let (o, few) = (o.clone(), few.clone());
        let ns = super::pumps::counts(th);
        t.push(task(format!("any number of {}", o.name), 0, 1, move |ctx| {
            let n = ns[ctx.pick(ns.len())];
            let p = &few[ctx.pick(few.len())];
            if n > 300 && p.name != o.name {
                return;
            }
            let a = Gen::new(0).gen(ctx, &o.schema);
            let b = Gen::new(0).gen(ctx, &p.schema);
            let mut items = vec![(&o, &a); n];
            items.push((p, &b));
            let what = format!("{n} times {} and then {}", describe(&[(&o, &a)]), describe(&[(p, &b)]));
            ctx.sample(|| what.clone());
            run_as(ctx, what, &items, SEPS[0]);
        }));
    }
    // the same one many times
    for o in all.iter() {
        let o = o.clone();
        t.push(task(format!("{} again and again", o.name), 1, 1, move |ctx| {
            let v = Gen::new(if th { 4 } else { 3 }).gen(ctx, &o.schema);
            let sep = SEPS[ctx.pick(SEPS.len())];
            ctx.sample(|| describe(&[(&o, &v)]));
            let items = vec![(&o, &v); 6];
            run(ctx, &items, sep);
        }));
    }
    Plan::new(
        "values are written one after the other into one output, each of which must equal what is written for the value alone, and read one after the other from one reader state, which must give the values and then stand at the end; a state is a distinct sequence of values",
        format!(
            "all ordered pairs of {} types with every value of up to {} structural choices on the left and at most 1 deviation; all sequences of {n} out of {} types, with every first structural choice; 6 copies of each value; {} numbers of copies up to {} of one value of each of the {} types (before one of each other type, up to 300 copies); 4 separators",
            bins().len(),
            if th { 3 } else { 2 },
            NAMES.len(),
            super::pumps::counts(th).len(),
            super::pumps::counts(th).last().unwrap(),
            NAMES.len(),
        ),
        t,
    )
}
