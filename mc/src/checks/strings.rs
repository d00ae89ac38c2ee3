//! Strings and escape sequences: C21.

use super::*;
use crate::engine::*;
use nanoserde::*;
use std::collections::{BTreeMap, HashMap};

/// Which part of the string handling a property is about.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Part {
    All,
    Bin,
    /// written to JSON and read back
    Json,
    /// written to JSON, to be read by a strict parser
    Rfc,
    /// written to RON and read back
    Ron,
    /// JSON literals
    ReadJson,
    /// RON literals
    ReadRon,
    /// TOML literals
    Toml,
}
impl Part {
    fn on(self, p: Part) -> bool {
        self == Part::All || self == p
    }
}

/// A string through every format, as a value and as a key.
fn trip(s: &str, part: Part) -> Result<(), String> {
    let st = s.to_string();
    fn eq(got: Result<String, String>, want: &str, text: &dyn std::fmt::Debug) -> Result<(), String> {
        match got {
            Ok(g) if g == want => Ok(()),
            g => Err(format!("{} written as {} is read as {}", show(&want), show(text), show(&g))),
        }
    }
    if part.on(Part::Bin) {
        let b = st.serialize_bin();
        let mut want = (s.len() as u64).to_le_bytes().to_vec();
        want.extend(s.as_bytes());
        if b != want {
            return Err(format!("{} is written as {}", show(&s), hex(&b)));
        }
        eq(String::deserialize_bin(&b).map_err(|e| e.to_string()), s, &b)?;
    }
    if part.on(Part::Json) {
        let j = st.serialize_json();
        eq(String::deserialize_json(&j).map_err(|e| e.to_string()), s, &j)?;
    }
    if part.on(Part::Rfc) {
        let j = st.serialize_json();
        // string slices can be written, too
        let slice = s.serialize_json();
        if slice != j {
            return Err(format!("the string {} is written as {}, but the slice as {}", show(&s), show(&j), show(&slice)));
        }
        match crate::rfc::parse(&j) {
            Ok(crate::rfc::J::Str(x)) if x == s => {}
            r => return Err(format!("{} is written as {}, which denotes {}", show(&s), show(&j), show(&r))),
        }
    }
    if part.on(Part::Ron) {
        let r = st.serialize_ron();
        eq(String::deserialize_ron(&r).map_err(|e| e.to_string()), s, &r)?;
    }
    Ok(())
}

fn keys(s: &str, part: Part) -> Result<(), String> {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    m.insert(s.to_string(), s.to_string());
    m.insert(format!("{s}k"), String::new());
    let mut h: HashMap<String, u8> = HashMap::new();
    h.insert(s.to_string(), 7);
    macro_rules! both {
        ($ser:ident, $de:ident) => {{
            let t = m.$ser();
            let g = BTreeMap::<String, String>::$de(&t).map_err(|e| e.to_string());
            if g.as_ref().ok() != Some(&m) {
                return Err(format!("the map {} written as {} is read as {}", show(&m), show(&t), show(&g)));
            }
            let t = h.$ser();
            let g = HashMap::<String, u8>::$de(&t).map_err(|e| e.to_string());
            if g.as_ref().ok() != Some(&h) {
                return Err(format!("the map {} written as {} is read as {}", show(&h), show(&t), show(&g)));
            }
        }};
    }
    if part.on(Part::Bin) {
        both!(serialize_bin, deserialize_bin);
    }
    if part.on(Part::Json) {
        both!(serialize_json, deserialize_json);
    }
    if part.on(Part::Ron) {
        both!(serialize_ron, deserialize_ron);
    }
    if part.on(Part::Rfc) {
        let t = m.serialize_json();
        let want = vec![(s.to_string(), s.to_string()), (format!("{s}k"), String::new())];
        let got = match crate::rfc::parse(&t) {
            Ok(crate::rfc::J::Obj(x)) => x
                .into_iter()
                .map(|(k, v)| match v {
                    crate::rfc::J::Str(v) => Ok((k, v)),
                    v => Err(format!("{v:?}")),
                })
                .collect(),
            r => Err(format!("{r:?}")),
        };
        if got.as_ref() != Ok(&want) {
            return Err(format!("the map {} is written as {}, which denotes {}", show(&m), show(&t), show(&got)));
        }
    }
    Ok(())
}

fn judge(ctx: &mut Ctx, s: &str, f: impl FnOnce() -> Result<(), String>) {
    ctx.trace();
    ctx.stats.transitions += 1;
    ctx.stats.counted_states += 1;
    let r = ctx.guard(&[s.as_bytes()], usize::MAX, f);
    if let Err(e) = r.and_then(|r| r) {
        ctx.violation(s, &e);
    }
}

/// Reading a JSON or RON string literal, alone, as a key and among others.
fn read(ctx: &mut Ctx, lit: &str, want: &str, all: bool, part: Part) {
    judge(ctx, lit, || {
        let no = |f: &str, g: &dyn std::fmt::Debug| Err(format!("{f} {} denotes {} but is read as {}", cut(lit), show(&want), show(g)));
        let t = if all { format!("{{{lit}:[{lit},{lit}]}}") } else { String::new() };
        let w: BTreeMap<String, Vec<String>> = if all { [(want.to_string(), vec![want.to_string(); 2])].into() } else { Default::default() };
        macro_rules! one {
            ($name:literal, $de:ident) => {
                let g = String::$de(lit).map_err(|e| e.to_string());
                if g.as_deref() != Ok(want) {
                    return no($name, &g);
                }
                if all {
                    let g = BTreeMap::<String, Vec<String>>::$de(&t).map_err(|e| e.to_string());
                    if g.as_ref() != Ok(&w) {
                        return no(concat!("as key and items, ", $name), &g);
                    }
                }
            };
        }
        if part.on(Part::ReadJson) {
            one!("JSON", deserialize_json);
        }
        if part.on(Part::ReadRon) {
            one!("RON", deserialize_ron);
        }
        Ok(())
    })
}

fn toml(ctx: &mut Ctx, lit: &str, want: &str) {
    judge(ctx, lit, || {
        for (t, key) in [(format!("k = {lit}\nz = 1"), "k"), (format!("[t]\n{lit} = {lit} # c\n"), ""), (format!("a = [{lit},{lit}]"), "a")] {
            if key.is_empty() && lit.starts_with("\"\"\"") {
                continue;
            }
            let g = TomlParser::parse(&t).map_err(|e| e.to_string());
            let ok = match &g {
                Err(_) => false,
                Ok(m) => match key {
                    "" => matches!(m.get(&format!("t.{want}")), Some(Toml::Str(s)) if s == want) && m.len() == 1,
                    "k" => matches!(m.get("k"), Some(Toml::Str(s)) if s == want) && m.len() == 2,
                    _ => matches!(m.get("a"), Some(Toml::SimpleArray(v)) if v.len() == 2 && v.iter().all(|s| matches!(s, Toml::Str(s) if s == want))),
                },
            };
            if !ok {
                return Err(format!("TOML {} is read as {}, with {} for the string", cut(&t), show(&g), show(&want)));
            }
        }
        Ok(())
    })
}

fn u4(x: u32, style: usize) -> String {
    match style {
        0 => format!("\\u{x:04x}"),
        1 => format!("\\u{x:04X}"),
        _ => {
            // mixed
            let s = format!("{x:04x}");
            let m: String = s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            format!("\\u{m}")
        }
    }
}
/// The unicode escape of a character in JSON and RON.
fn escaped(c: char, style: usize) -> String {
    let mut b = [0u16; 2];
    c.encode_utf16(&mut b).iter().map(|x| u4(*x as u32, style)).collect()
}

const BLOCK: u32 = 0x400;

fn scalars(_th: bool, part: Part) -> Vec<Task> {
    let blocks = (0x110000 / BLOCK) as usize;
    let each = move |ctx: &mut Ctx, f: &dyn Fn(&mut Ctx, char)| {
        let b = ctx.pick(blocks) as u32 * BLOCK;
        for c in (b..b + BLOCK).filter_map(char::from_u32) {
            f(ctx, c);
            if ctx.stopped() {
                return;
            }
        }
        ctx.sample(|| format!("U+{b:04X} and the {BLOCK} characters from there"));
    };
    vec![
        task("every scalar as a value", 0, 1, move |ctx| {
            each(ctx, &|ctx, c| {
                for s in [
                    format!("{c}"),
                    format!("{c}a"),
                    format!("a{c}"),
                    format!("a{c}b"),
                    format!("{c}{c}"),
                    format!("\"{c}\""),
                    format!("\\{c}\\"),
                    format!("{c}\\u0041"),
                    format!("\u{1}{c}\u{7f}"),
                    format!("{c}/*😀//\n{c}"),
                ] {
                    judge(ctx, &s, || trip(&s, part));
                }
            })
        }),
        task("every scalar as a key", 0, 1, move |ctx| {
            each(ctx, &|ctx, c| {
                for s in [format!("{c}"), format!("a{c}"), format!("{c}\"")] {
                    judge(ctx, &s, || keys(&s, part));
                }
            })
        }),
        task("every scalar escaped", 0, 1, move |ctx| {
            each(ctx, &|ctx, c| {
                for style in 0..3 {
                    let e = escaped(c, style);
                    // NUL ends a text as far as the readers are concerned
                    read(ctx, &format!("\"{e}\""), &format!("{c}"), style == 0, part);
                    read(ctx, &format!("\"a{e}0\""), &format!("a{c}0"), false, part);
                    read(ctx, &format!("\"{e}{e}\""), &format!("{c}{c}"), false, part);
                    read(ctx, &format!("\"\\\\{e}\\\"\""), &format!("\\{c}\""), false, part);
                }
                if c != '"' && c != '\\' && c as u32 >= 0x20 {
                    let e = escaped(c, 0);
                    read(ctx, &format!("\"{c}{e}{c}\""), &format!("{c}{c}{c}"), true, part);
                }
            })
        }),
        task("every scalar in TOML", 0, 1, move |ctx| {
            each(ctx, &|ctx, c| {
                let mut forms = vec![format!("\\U{:08x}", c as u32), format!("\\U{:08X}", c as u32)];
                if (c as u32) < 0x10000 {
                    forms.push(u4(c as u32, 0));
                    forms.push(u4(c as u32, 1));
                    forms.push(u4(c as u32, 2));
                }
                if (c as u32) >= 0x20 && c != '"' && c != '\\' && c as u32 != 0x7f || c == '\t' {
                    forms.push(c.to_string());
                }
                for e in forms {
                    toml(ctx, &format!("\"{e}\""), &format!("{c}"));
                    toml(ctx, &format!("\"a{e}0\""), &format!("a{c}0"));
                    toml(ctx, &format!("\"\"\"{e}\n{e}\"\"\""), &format!("{c}\n{c}"));
                }
            })
        }),
    ]
}

/// What a string literal may be made of: source and meaning.
const PIECES: &[(&str, &str)] = &[
    ("a", "a"),
    ("\\\"", "\""),
    ("\\\\", "\\"),
    ("\\/", "/"),
    ("\\n", "\n"),
    ("\\t", "\t"),
    ("\\b", "\u{8}"),
    ("\\f", "\u{c}"),
    ("\\r", "\r"),
    ("\\u0041", "A"),
    ("\\u00e9", "é"),
    ("\\u20AC", "€"),
    ("\\ud83d\\ude00", "😀"),
    ("\\uDBFF\\uDFFF", "\u{10ffff}"),
    ("\\ud800\\udc00", "\u{10000}"),
    ("\\uFFFF", "\u{ffff}"),
    ("\\u005c", "\\"),
    ("\\u0022", "\""),
    ("😀", "😀"),
    ("é", "é"),
    ("u", "u"),
    ("d83d", "d83d"),
    ("'", "'"),
    ("//", "//"),
    ("/*", "/*"),
    (" ", " "),
    ("{", "{"),
    ("]", "]"),
    (",", ","),
    (":", ":"),
];
const TPIECES: &[(&str, &str)] = &[
    ("a", "a"),
    ("\\\"", "\""),
    ("\\\\", "\\"),
    ("\\n", "\n"),
    ("\\t", "\t"),
    ("\\b", "\u{8}"),
    ("\\f", "\u{c}"),
    ("\\r", "\r"),
    ("\\u0041", "A"),
    ("\\u00e9", "é"),
    ("\\u20AC", "€"),
    ("\\U0001F600", "😀"),
    ("\\U0010ffff", "\u{10ffff}"),
    ("\\uD7FF", "\u{d7ff}"),
    ("\\u005c", "\\"),
    ("\\u0022", "\""),
    ("😀", "😀"),
    ("é", "é"),
    ("u", "u"),
    ("\t", "\t"),
    ("'", "'"),
    ("#", "#"),
    ("=", "="),
    ("]", "]"),
    (",", ","),
];
/// Characters which matter to some reader or writer.
const NASTY: &[char] = &[
    'a', '"', '\\', '/', '\n', '\t', '\r', '\u{8}', '\u{c}', '\0', '\u{1}', '\u{1f}', '\u{7f}', ' ', 'u', '0', 'é', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '😀',
    '\'', '*', '[', '}', ',', ':', '#', '\u{feff}',
];

fn sequences(th: bool, part: Part) -> Vec<Task> {
    let n = if th { 5 } else { 4 };
    let m = if th { 5 } else { 4 };
    vec![
        task("sequences of characters", 0, 2, move |ctx| {
            let mut s = String::new();
            for _ in 0..m {
                let k = ctx.pick(NASTY.len() + 1);
                if k == 0 {
                    break;
                }
                s.push(NASTY[k - 1]);
            }
            ctx.sample(|| format!("{s:?}"));
            judge(ctx, &s, || trip(&s, part).and_then(|_| keys(&s, part)));
        }),
        task("sequences of JSON and RON escapes", 0, 2, move |ctx| {
            let (mut a, mut b) = (String::new(), String::new());
            for _ in 0..n {
                let k = ctx.pick(PIECES.len() + 1);
                if k == 0 {
                    break;
                }
                a += PIECES[k - 1].0;
                b += PIECES[k - 1].1;
            }
            ctx.sample(|| format!("{a} is {b:?}"));
            read(ctx, &format!("\"{a}\""), &b, true, part);
        }),
        task("sequences of TOML escapes", 0, 2, move |ctx| {
            let (mut a, mut b) = (String::new(), String::new());
            for _ in 0..n {
                let k = ctx.pick(TPIECES.len() + 1);
                if k == 0 {
                    break;
                }
                a += TPIECES[k - 1].0;
                b += TPIECES[k - 1].1;
            }
            ctx.sample(|| format!("{a} is {b:?}"));
            toml(ctx, &format!("\"{a}\""), &b);
            toml(ctx, &format!("\"\"\"{a}\"\"\""), &b);
        }),
        task("strings of every length", 0, 1, move |ctx| {
            let c = NASTY[ctx.pick(NASTY.len())];
            for n in (0..=300).chain([511, 512, 513, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20]) {
                let mut s: String = std::iter::repeat_n(c, n).collect();
                judge(ctx, &s, || trip(&s, part));
                s.push_str("end");
                judge(ctx, &s, || trip(&s, part).and_then(|_| keys(&s, part)));
            }
            ctx.sample(|| format!("{c:?} up to 2^20 times"));
        }),
    ]
}

/// Strings wherever a string may stand.
fn places() -> Vec<Task> {
    use crate::types::{Duo, Mix, E};
    use crate::schema::Model;
    vec![task("pairs of strings in every place", 0, 1, move |ctx| {
        let strs: Vec<String> = crate::gen::STRS
            .iter()
            .map(|s| s.to_string())
            .chain(NASTY.iter().map(|c| c.to_string()))
            .chain(["true", "1.5", "{\"a\":1}", "A", "B(1)", "Some(1)", "\u{0}\u{0}", "'", "''", "\"\"", "# x", "\\u", "\\", "\\\\", "end\\"].map(String::from))
            .collect();
        let x = &strs[ctx.pick(strs.len())];
        for y in &strs {
            judge(ctx, &format!("{x:?} {y:?}"), || {
                macro_rules! go {
                    ($t:ty, $v:expr) => {{
                        let v: $t = $v;
                        let a = v.serialize_bin();
                        let g = <$t>::deserialize_bin(&a).map_err(|e| e.to_string());
                        if g.as_ref().ok() != Some(&v) {
                            return Err(format!("{} in binary is read as {}", show(&v), show(&g)));
                        }
                        let a = v.serialize_json();
                        let g = <$t>::deserialize_json(&a).map_err(|e| e.to_string());
                        if g.as_ref().ok() != Some(&v) {
                            return Err(format!("{} as {} is read as {}", show(&v), show(&a), show(&g)));
                        }
                        let a = v.serialize_ron();
                        let g = <$t>::deserialize_ron(&a).map_err(|e| e.to_string());
                        if g.as_ref().ok() != Some(&v) {
                            return Err(format!("{} as {} is read as {}", show(&v), show(&a), show(&g)));
                        }
                    }};
                }
                go!(Vec<String>, vec![x.clone(), y.clone(), x.clone()]);
                go!((String, Option<String>, [String; 2]), (x.clone(), Some(y.clone()), [y.clone(), x.clone()]));
                go!(BTreeMap<String, BTreeMap<String, String>>, [(x.clone(), [(y.clone(), x.clone())].into())].into());
                go!(std::collections::HashSet<String>, [x.clone(), y.clone()].into());
                go!(std::collections::BTreeSet<String>, [x.clone(), y.clone()].into());
                go!(std::collections::LinkedList<String>, [x.clone(), y.clone()].into());
                go!(Duo, Duo(7, x.clone()));
                go!(E, E::C(-1, y.clone()));
                go!(Vec<E>, vec![E::C(1, x.clone()), E::A, E::C(2, y.clone())]);
                let mut m = Mix::from_val(&Mix::schema().zero());
                m.s = x.clone();
                m.e = E::C(0, y.clone());
                go!(Mix, m);
                go!(Box<(u8, String)>, Box::new((1, y.clone())));
                Ok(())
            });
        }
        ctx.sample(|| format!("{x:?} next to {} others", strs.len()));
    })]
}

/// The strings of a part, for the other properties.
pub fn for_part(th: bool, part: Part) -> Vec<Task> {
    let words: &[&str] = match part {
        Part::All => &[""],
        Part::ReadJson | Part::ReadRon => &["escaped", "JSON and RON escapes"],
        Part::Toml => &["TOML"],
        _ => &["as a value", "as a key", "characters", "length"],
    };
    scalars(th, part).into_iter().chain(sequences(th, part)).filter(|t| words.iter().any(|w| t.name.contains(w))).collect()
}

pub fn c21(th: bool) -> Plan {
    let mut t = scalars(th, Part::All);
    t.extend(sequences(th, Part::All));
    t.extend(places());
    Plan::new(
        "strings are written and read back as value and as map key in every format, with JSON output also read by an independent parser; literals with known meaning are read; every case is a distinct string or literal of its task",
        format!(
            "each of the 1112064 Unicode scalar values alone, at the start, middle and end, next to quotes, backslashes, control characters and comment marks, as a key, under each of its escapes (3 spellings of the hex digits) in JSON, RON and TOML; all sequences of up to {} of 30 awkward characters and of up to {} of 30 (TOML 25) escapes and literals; lengths 0..=300 and around 2^9, 2^10, 2^12, 2^16, 2^20 of 30 characters; pairs of 65 strings in 11 places",
            if th { 5 } else { 4 },
            if th { 5 } else { 4 },
        ),
        t,
    )
}
