//! Texts given to the real decoders, and what independent ones make of them.

use crate::engine::*;
use crate::gen::*;
use crate::lexref::Flavor;
use crate::schema::*;
use crate::textref::*;

/// The longest prefix of a text for messages.
pub fn cut(s: &str) -> String {
    if s.len() < 600 {
        return s.to_string();
    }
    let mut k = 600;
    while !s.is_char_boundary(k) {
        k -= 1
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}
pub fn show<X: std::fmt::Debug + ?Sized>(x: &X) -> String {
    cut(&format!("{x:?}"))
}
pub fn hex(b: &[u8]) -> String {
    cut(&b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" "))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Total,
    Accept,
    Reject,
    Pos,
}

pub fn line_col(s: &str) -> (usize, usize) {
    match s.rfind('\n') {
        Some(k) => (s.matches('\n').count(), s[k + 1..].chars().count()),
        None => (0, s.chars().count()),
    }
}

fn ops_of(o: &Ops, fl: Flavor) -> TextOps {
    match fl {
        Flavor::Json => o.json.unwrap(),
        Flavor::Ron => o.ron.unwrap(),
    }
}

/// Run the decoder on a text; whether text behind it could change anything.
pub fn look(ctx: &mut Ctx, m: Mode, fl: Flavor, o: &Ops, text: &str) -> bool {
    let x = ops_of(o, fl);
    ctx.state(&[o.name.as_bytes(), text.as_bytes()]);
    ctx.trace();
    let slot: [&[u8]; 3] = [o.name.as_bytes(), b": ", text.as_bytes()];
    let mem = if m == Mode::Total { (32 << 10) + 1024 * text.len() } else { usize::MAX };
    let r = match ctx.guard(&slot, mem, || (x.de)(text)) {
        Ok(r) => r,
        Err(p) => {
            ctx.violation(text, &format!("{} from {}: {p}", o.name, show(&text)));
            return false;
        }
    };
    // an error short of the end of the text stays what it is
    let more = match &r {
        Ok(_) => true,
        Err(e) => (e.line, e.col) == line_col(text),
    };
    match m {
        Mode::Total => {}
        Mode::Accept => {
            let (_, want) = verdict(&o.schema, text, fl);
            if let Ok(v) = &want {
                if !matches!(&r, Ok(w) if w == v) {
                    ctx.violation(
                        text,
                        &format!("{} from {} is read as {} although it denotes {}", o.name, show(&text), show(&r), show(v)),
                    );
                }
            }
        }
        Mode::Reject => {
            if let Ok(w) = &r {
                let (_, want) = denotes(&o.schema, text, fl);
                match want {
                    Err(Bad::Reject(k, why)) => ctx.violation(
                        text,
                        &format!("{} from {} is read as {} although token {k} is wrong: {why}", o.name, show(&text), show(w)),
                    ),
                    Ok((v, _)) if v != *w => ctx.violation(
                        text,
                        &format!("{} from {} is read as {} although it denotes {}", o.name, show(&text), show(w), show(&v)),
                    ),
                    _ => {}
                }
            }
        }
        Mode::Pos => {
            let Err(e) = &r else { return more };
            let st = ctx.guard(&slot, usize::MAX, || (x.de_state)(text));
            let Ok((Err(f), stop)) = st else {
                ctx.violation(text, &format!("{} from {}: error only from one entry point", o.name, show(&text)));
                return more;
            };
            let read = &text[..text.len() - stop.unread];
            let shows = |n: usize| e.shown.contains(&n.to_string());
            let mut bad = None;
            if (e.line, e.col) != line_col(read) {
                bad = Some(format!("but decoding stopped after {}, at {:?}", show(&read), line_col(read)));
            } else if (f.line, f.col) != (e.line, e.col) {
                bad = Some("but not from the other entry point".to_string());
            } else if !(shows(e.line) && shows(e.col) || shows(e.line + 1) && shows(e.col + 1)) {
                bad = Some(format!("but displayed as {:?}", e.shown));
            }
            let (lx, want) = denotes(&o.schema, text, fl);
            if let (Err(Bad::Reject(k, why)), None) = (&want, &bad) {
                // the token at fault, or the lexical error, or the end
                let pos = |i: usize, end: bool| match lx.toks.get(i) {
                    Some(t) => {
                        if end {
                            t.end
                        } else {
                            t.start
                        }
                    }
                    None => match &lx.err {
                        Some(e) if i == lx.toks.len() && !end => e.start,
                        // how far a malformed token reaches is open
                        _ => text.len(),
                    },
                };
                let (lo, hi) = (pos(*k, false), pos(*k + 2, true));
                let hi = hi + text[hi..].chars().next().map_or(0, |c| c.len_utf8());
                if read.len() < lo || read.len() > hi {
                    bad = Some(format!("after reading {} bytes, but token {k} is at fault ({why}): {lo}..{hi}", read.len()));
                }
            }
            if let Some(b) = bad {
                ctx.violation(
                    text,
                    &format!("{} from {}: error {} at line {} column {} {b}", o.name, show(&text), e.msg, e.line, e.col),
                );
            }
        }
    }
    more
}

// ------------------------------------------------------------------ mutants

/// Names in a schema.
pub fn names(s: &S, fl: Flavor, depth: usize, out: &mut Vec<String>) {
    if depth > 4 {
        return;
    }
    let d = depth + 1;
    let add = |n: &str, out: &mut Vec<String>| {
        let t = if fl == Flavor::Json { format!("{n:?}") } else { n.to_string() };
        if !out.contains(&t) {
            out.push(t)
        }
    };
    match s {
        S::Lazy(f) => names(&f(), fl, d, out),
        S::Opt(t) | S::Seq(t) | S::Set(t, _) | S::Arr(_, t) => names(t, fl, d, out),
        S::Map(k, t, _) => {
            names(k, fl, d, out);
            names(t, fl, d, out)
        }
        S::Tup(ts) => ts.iter().for_each(|t| names(t, fl, d, out)),
        S::Struct(st) => {
            for f in &st.fields {
                if st.kind == Kind::Named {
                    add(if fl == Flavor::Json { &f.json } else { &f.ron }, out);
                }
                names(&f.ty, fl, d, out)
            }
        }
        S::Enum(e) => {
            for v in e.variants.iter().take(8) {
                add(if fl == Flavor::Json { &v.json } else { &v.name }, out);
                for f in &v.fields {
                    if v.kind == Kind::Named {
                        add(&f.name, out);
                    }
                    names(&f.ty, fl, d, out)
                }
            }
        }
        S::Dur | S::Time => {
            // keys are quoted in both
            for k in ["\"secs\"", "\"nanos\""] {
                if !out.contains(&k.to_string()) {
                    out.push(k.into())
                }
            }
        }
        _ => {}
    }
}

/// Tokens to put in place of others, malformed ones among them.
pub fn intruders(s: &S, fl: Flavor) -> Vec<String> {
    let mut v: Vec<String> = [
        "[", "]", "{", "}", ",", ":", "0", "1", "-1", "1.5", "-0.5", "255", "256", "-128", "-129", "32767", "32768", "65536",
        "2147483648", "-2147483649", "4294967296", "9223372036854775808", "-9223372036854775809", "18446744073709551615",
        "18446744073709551616", "340282366920938463463374607431768211456", "1e2", "1.0", "true", "false", "null", "\"\"",
        "\"x\"", "\"1\"", "\"null\"", "nul", "tru", "falsee", "-", "+", ".", "1.", ".5", "1e", "1e+", "--1", "1.5.2", "01",
        "\"open", "\"\\", "\"\\ud800\"", "\"\\ud800x\"", "\"\\udc00\"", "\"\\ud800\\u0041\"", "\"\\ud800\\ud800\"", "\"\\u12\"",
        "\"\\u12g4\"", "\"\\u\"", "\"\\u 123\"", "\"\\u+123\"", "\"\\ud83d\\ude0g\"", "/", "/*", "*/", "/* *", "//", "// c", "#", "'a'", "\\", "é", "\u{a0}", ";", "=",
        "NaN", "inf", "Infinity", "None", "Some", "_",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    if fl == Flavor::Ron {
        v.extend(["(", ")", "()", "Some(1)", "x", "+1", "+-1"].iter().map(|s| s.to_string()));
    }
    names(s, fl, 0, &mut v);
    v
}

pub const CHARS: &[char] = &[
    '{', '}', '[', ']', '(', ')', ',', ':', '"', '\\', '/', '*', '-', '+', '.', '0', '9', 'e', 'u', 'n', 't', 'f', 'A', '_', ' ',
    '\n', '\0', 'é', '😀', '\u{1}', '\r', '\'', '#',
];

pub fn join_with(t: &[String], sep: &str) -> String {
    t.join(sep)
}

/// All texts at one token edit from these tokens.
pub fn token_edits(t: &[String], intr: &[String], f: &mut dyn FnMut(Vec<String>)) {
    for i in 0..t.len() {
        let mut u = t.to_vec();
        u.remove(i);
        f(u);
        let mut u = t.to_vec();
        u.insert(i, t[i].clone());
        f(u);
        if i + 1 < t.len() {
            let mut u = t.to_vec();
            u.swap(i, i + 1);
            f(u);
        }
        f(t[..i].to_vec());
    }
    for i in 0..=t.len() {
        for x in intr {
            let mut u = t.to_vec();
            u.insert(i, x.clone());
            f(u);
            if i < t.len() {
                let mut u = t.to_vec();
                u[i] = x.clone();
                f(u);
            }
        }
    }
}

pub fn mutants(m: Mode, fl: Flavor, o: &Ops, th: bool) -> Task {
    let p = o.clone();
    let intr = intruders(&o.schema, fl);
    task(format!("mutants of {}", o.name), 1, 3, move |ctx| {
        let free = if th { 3 } else { 2 };
        let v = Gen::new(free).gen(ctx, &p.schema);
        let mut t = tokens(&p.schema, &v, fl, &mut Plain);
        // special contents only where that is affordable
        if t.len() > 120 || ctx.budget() == 0 && t.len() > if th { 25 } else { 8 } {
            return;
        }
        let sep = ["", " "][ctx.pick(2)];
        let text = join_with(&t, sep);
        ctx.sample(|| format!("{} from every mutant of {}", p.name, text));
        look(ctx, m, fl, &p, &text);
        // edits of characters
        let cs: Vec<char> = text.chars().collect();
        if sep.is_empty() && cs.len() < 400 {
            for i in 0..=cs.len() {
                let run = |ctx: &mut Ctx, mid: Option<char>, skip: usize| {
                    if i + skip > cs.len() {
                        return;
                    }
                    ctx.stats.transitions += 1;
                    let u: String = cs[..i].iter().chain(mid.iter()).chain(cs[i + skip..].iter()).collect();
                    look(ctx, m, fl, &p, &u);
                };
                run(ctx, None, 1);
                for c in CHARS {
                    run(ctx, Some(*c), 0);
                    run(ctx, Some(*c), 1);
                }
                let u: String = cs[..i].iter().collect();
                look(ctx, m, fl, &p, &u);
                look(ctx, m, fl, &p, &format!("{u}\n"));
            }
        }
        // line breaks make positions interesting
        if m == Mode::Pos && !sep.is_empty() {
            t = t.iter().map(|x| format!("{x}\n é")).map(|x| x.replace('é', if x.len() % 2 == 0 { "/*é*/" } else { "" })).collect();
        }
        token_edits(&t, &intr, &mut |u| {
            ctx.stats.transitions += 1;
            let text = join_with(&u, sep);
            look(ctx, m, fl, &p, &text);
            if th && t.len() <= 9 {
                token_edits(&u, &intr, &mut |w| {
                    ctx.stats.transitions += 1;
                    let text = join_with(&w, sep);
                    look(ctx, m, fl, &p, &text);
                });
            }
        });
    })
}
