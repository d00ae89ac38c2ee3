//! Declared types, each checked against the schema its declaration should have:
//! C16 and C17. The declarations are generated and compiled by gen/check.py.

use crate::binref::encode;
use crate::engine::*;
use crate::gen::*;
use crate::lexref::{lex, Flavor, T};
use crate::looks::*;
use crate::rfc;
use crate::schema::*;
use crate::textref::*;
use std::sync::Arc;

/// A declared type and how it is checked.
#[derive(Clone)]
pub struct Item {
    pub ops: Ops,
    pub decl: &'static str,
    /// documents beyond those the crate writes itself are read as well
    pub mutants: bool,
    /// what is written is compared with the schema, and not only read back
    pub layout: bool,
}

fn idents(text: &str) -> Vec<String> {
    lex(text, Flavor::Ron)
        .toks
        .into_iter()
        .filter_map(|t| match t.t {
            T::Ident(s) => Some(s),
            _ => None,
        })
        .collect()
}

/// The same type, where no None is written, whatever a missing field is read as.
fn as_written(s: &S) -> S {
    let fields = |fs: &[FieldS]| {
        fs.iter()
            .map(|f| {
                let mut f = f.clone();
                if f.ty.resolve().is_opt() {
                    f.missing = Some(Val::none());
                }
                f
            })
            .collect()
    };
    match s {
        S::Struct(st) => S::Struct(Arc::new(StructS { fields: fields(&st.fields), ..(**st).clone() })),
        S::Enum(e) => {
            let variants = e.variants.iter().map(|v| VariantS { fields: fields(&v.fields), ..v.clone() }).collect();
            S::Enum(Arc::new(EnumS { variants, ..(**e).clone() }))
        }
        s => s.clone(),
    }
}

/// Why what the crate writes and reads is not what the declaration asks for.
fn judge(it: &Item, v: &Val) -> Result<(), String> {
    let (o, s) = (&it.ops, &it.ops.schema);
    let un = s.unordered();
    if let Some(b) = &o.bin {
        let want = after_trip(s, v, Format::Bin);
        let enc = (b.ser)(v);
        if it.layout && !un {
            let mut lay = vec![];
            encode(s, v, &mut lay);
            if lay != enc {
                return Err(format!("binary: written as {}, not {}", hex(&enc), hex(&lay)));
            }
        }
        let mut more = enc.clone();
        more.extend([0xa5; 5]);
        let mut at = 0;
        match (b.de_at)(&more, &mut at) {
            Ok(w) if w == want && at == enc.len() => {}
            r => return Err(format!("binary: written as {} and read as {} up to {at}", hex(&enc), show(&r))),
        }
        for n in 0..enc.len() {
            if let Ok(w) = (b.de)(&enc[..n]) {
                return Err(format!("binary: {} is read as {}", hex(&enc[..n]), show(&w)));
            }
        }
    }
    if let Some(x) = &o.json {
        let want = after_trip(s, v, Format::Json);
        let text = (x.ser)(v);
        match (x.de)(&text) {
            Ok(w) if w == want => {}
            r => return Err(format!("JSON: written as {} and read as {}", cut(&text), show(&r))),
        }
        if it.layout && rfc::writes_json(s) {
            let j = rfc::parse(&text).map_err(|e| format!("JSON: written as {} which is not JSON: {e}", cut(&text)))?;
            rfc::check(s, v, &j, rfc::Strict { order: true, nulls: true })
                .map_err(|e| format!("JSON: written as {}: {e}", cut(&text)))?;
        }
    }
    if let Some(x) = &o.ron {
        let want = after_trip(s, v, Format::Ron);
        let text = (x.ser)(v);
        match (x.de)(&text) {
            Ok(w) if w == want => {}
            r => return Err(format!("RON: written as {} and read as {}", cut(&text), show(&r))),
        }
        if it.layout {
            match verdict(s, &text, Flavor::Ron).1 {
                Ok(w) if w == want => {}
                Err(Bad::Gray(_)) => {}
                r => return Err(format!("RON: written as {} which denotes {}", cut(&text), show(&r))),
            }
            let (a, b) = (idents(&text), idents(&plain(&as_written(s), v, Flavor::Ron)));
            if !un && a != b {
                return Err(format!("RON: written as {} with the names {a:?}, not {b:?}", cut(&text)));
            }
        }
    }
    Ok(())
}

/// The fields of the outermost struct or struct variant.
fn named_fields<'a>(s: &'a S, v: &'a Val) -> Option<(Option<&'a VariantS>, &'a [FieldS], &'a [Val])> {
    match (s, v) {
        (S::Struct(st), Val::Tup(x)) if st.kind != Kind::Tuple => Some((None, &st.fields, x)),
        (S::Enum(e), Val::Enum(k, x)) if e.variants[*k].kind == Kind::Named => {
            Some((Some(&e.variants[*k]), &e.variants[*k].fields, x))
        }
        _ => None,
    }
}

/// A document in which each field is there under its name, or absent, or None,
/// or there under a name it should not have.
fn presence(ctx: &mut Ctx, s: &S, v: &Val, fl: Flavor) -> Option<String> {
    let json = fl == Flavor::Json;
    let (va, fs, xs) = named_fields(s, v)?;
    let key = |n: &str| if json { format!("{n:?}") } else { n.to_string() };
    let mut parts = vec![];
    for (f, x) in fs.iter().zip(xs) {
        let name = if json { &f.json } else { &f.ron };
        let val = match &f.proxy {
            Some(_) if json && x.is_none() => "null".into(),
            Some(p) if json => plain(&p.ty, &(p.to)(x), fl),
            _ => plain(&f.ty, x, fl),
        };
        let none = if json { "null" } else { "None" };
        let mut alt = vec![
            Some(format!("{}:{val}", key(name))),
            None,
            Some(format!("{}:{none}", key(name))),
            Some(format!("{}:true", key(name))),
        ];
        if f.name != *name {
            alt.push(Some(format!("{}:{val}", key(&f.name))));
        }
        let n = if fs.len() > 4 { alt.len().min(3) } else { alt.len() };
        let k = if fs.len() > 5 { ctx.dev(n) } else { ctx.pick(n) };
        if let Some(p) = alt.swap_remove(k) {
            parts.push(p);
        }
    }
    if parts.len() > 1 && ctx.flag() {
        parts.reverse();
    }
    if json && ctx.flag() {
        parts.insert(parts.len() / 2, "\"zz_other\":[1,{\"a\":null}]".into());
    }
    let body = parts.join(",");
    Some(match (json, va) {
        (true, None) => format!("{{{body}}}"),
        (false, None) => format!("({body})"),
        (true, Some(va)) => format!("{{{:?}:{{{body}}}}}", va.json),
        (false, Some(va)) => format!("{}({body})", va.name),
    })
}

/// Tokens which matter to what attributes do.
fn intruders(s: &S, fl: Flavor) -> Vec<String> {
    let mut v: Vec<String> = ["null", "None", "1", "\"x\"", "true", "[", "]", "{", "}", ",", ":", "(", ")", "\"zz\"", "zz"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    names(s, fl, 0, &mut v);
    // and the names before renaming
    let mut add = |n: &str| {
        let t = if fl == Flavor::Json { format!("{n:?}") } else { n.to_string() };
        if !v.contains(&t) {
            v.push(t)
        }
    };
    match s {
        S::Struct(st) => st.fields.iter().for_each(|f| add(&f.name)),
        S::Enum(e) => e.variants.iter().take(8).for_each(|v| {
            add(&v.name);
            v.fields.iter().for_each(|f| add(&f.name))
        }),
        _ => {}
    }
    v
}

fn item_tasks(it: Item, th: bool, out: &mut Vec<Task>) {
    let name = it.ops.name.clone();
    {
        let it = it.clone();
        out.push(task(format!("{name} values"), if th { 2 } else { 1 }, 0, move |ctx| {
            let v = Gen::new(if th { 5 } else { 3 }).gen(ctx, &it.ops.schema);
            let case = show(&v);
            let r = ctx.guard(&[it.ops.name.as_bytes(), b": ", case.as_bytes()], usize::MAX, || judge(&it, &v));
            ctx.trace();
            ctx.state(&[it.ops.name.as_bytes(), format!("{v:?}").as_bytes()]);
            ctx.sample(|| format!("{} = {v:?}", it.decl.replace('\n', " ")));
            if let Err(e) = r.and_then(|r| r) {
                ctx.violation(&format!("{} {case}", it.ops.name), &format!("{} value {case}: {e}", it.decl));
            }
        }));
    }
    if !it.mutants {
        return;
    }
    for fl in [Flavor::Json, Flavor::Ron] {
        let there = if fl == Flavor::Json { it.ops.json.is_some() } else { it.ops.ron.is_some() };
        if !there {
            continue;
        }
        let both = move |ctx: &mut Ctx, o: &Ops, text: &str| {
            ctx.stats.transitions += 1;
            look(ctx, Mode::Accept, fl, o, text);
            look(ctx, Mode::Reject, fl, o, text);
        };
        let p = it.clone();
        out.push(task(format!("{name} presence {fl:?}"), 2, 0, move |ctx| {
            let b = ctx.budget();
            // the budget is for the presence of fields
            ctx.set_budget(0);
            let v = Gen::new(if th { 2 } else { 1 }).gen(ctx, &p.ops.schema);
            ctx.set_budget(b);
            if let Some(text) = presence(ctx, &p.ops.schema, &v, fl) {
                ctx.sample(|| format!("{} from {text}", p.decl.replace('\n', " ")));
                both(ctx, &p.ops, &text);
            }
        }));
        let p = it.clone();
        let intr = intruders(&p.ops.schema, fl);
        out.push(task(format!("{name} edits {fl:?}"), 0, 0, move |ctx| {
            let v = Gen::new(if th { 2 } else { 1 }).gen(ctx, &p.ops.schema);
            let t = tokens(&p.ops.schema, &v, fl, &mut Plain);
            both(ctx, &p.ops, &join_with(&t, ""));
            if t.len() < 60 {
                token_edits(&t, &intr, &mut |u| both(ctx, &p.ops, &join_with(&u, " ")));
            }
        }));
    }
}

pub fn plan(id: &str, th: bool, items: Vec<Item>, bounds: &str) -> Plan {
    let n = items.len();
    let mut t = vec![];
    for it in items {
        item_tasks(it, th, &mut t);
    }
    let rule = match id {
        "C16" => "for every declaration of the bounded space of attributes, and every value within the bounds: what the code derived from it writes in each format has the layout, the names and the members the attributes ask for and is read back; every document within the bounds is read as the value it denotes by an independent decoder which knows the attributes, and rejected if it denotes none; a state is a distinct (declaration, value or text)",
        _ => "every declaration of the bounded space is compiled with the six derives, and for every value within the bounds what the derived code writes has the fields and variants in order and under their names in each format and is read back; a state is a distinct (declaration, value)",
    };
    Plan::new(rule, format!("{n} declarations: {bounds}"), t)
}
