//! Values, byte strings and documents whose results are the same everywhere.

use crate::engine::Ctx;
use crate::gen::*;
use crate::schema::*;
use crate::types::*;
use crate::{task, Task};
use nanoserde::TomlParser;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
fn bin(r: Result<Val, BErr>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(_) => "error".into(),
    }
}
fn text(r: Result<Val, TErr>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("error {}:{} {}", e.line, e.col, e.kind),
    }
}

/// Types without usize.
pub fn kinds() -> Vec<Ops> {
    bins().into_iter().filter(|o| !o.name.contains("usize")).collect()
}

fn trip(c: &mut Ctx, o: &Ops, free: usize) -> String {
    let v = Gen::new(free).nonfinite_if(o).gen(c, &o.schema);
    let ordered = !o.schema.unordered();
    let mut out = String::new();
    if let Some(x) = &o.bin {
        let b = (x.ser)(&v);
        if ordered {
            out += &hex(&b);
        }
        match (x.de)(&b) {
            Ok(w) if w == after_trip(&o.schema, &v, Format::Bin) => {}
            r => return format!("WRONG: {} {v:?} is written as {} and read as {r:?}", o.name, hex(&b)),
        }
    }
    for (x, f) in [(&o.json, Format::Json), (&o.ron, Format::Ron)] {
        let Some(x) = x else { continue };
        let t = (x.ser)(&v);
        if ordered {
            out = out + " | " + &t;
        }
        match (x.de)(&t) {
            Ok(w) if w == after_trip(&o.schema, &v, f) => {}
            r => return format!("WRONG: {} {v:?} is written as {t} and read as {r:?}", o.name),
        }
    }
    out
}

/// Bytes cut off, or one of them replaced, at an address of any alignment.
fn bytes(c: &mut Ctx, o: &Ops, level: usize) -> String {
    let x = o.bin.unwrap();
    let v = Gen::new(level).gen(c, &o.schema);
    let mut b = (x.ser)(&v);
    if o.schema.unordered() {
        b.truncate(24);
    }
    // any number of items without bytes is right
    let empty = EMPTY.iter().any(|e| o.name.contains(e));
    let kind = if empty { 0 } else { c.pick(2) };
    if kind == 0 {
        b.truncate(c.pick(b.len() + 1));
    } else if !b.is_empty() {
        let k = c.pick(b.len());
        b[k] = [0xff, 1, 0, 2, 3, 0x7f, 0x80][c.pick(if level == 0 { 2 } else { 7 })];
    }
    let shift = c.dev(8);
    let mut at = shift;
    let buf = [&[0xaau8; 8][..shift], &b[..]].concat().into_boxed_slice();
    let r = bin((x.de_at)(&buf, &mut at));
    // in any order; or within the range of the clock of the system
    if o.schema.unordered() || matches!(*o.schema, S::Time) {
        return "-".into();
    }
    format!("{} {r}", hex(&b))
}

const PUT: &[&str] = &["", "\"", "1", "\\ud83d", "é", "\\", ",", ":", "[", "]", "{", "}", "(", ")", "0", "-", ".", "e9", "t", "/", "\n", "😀", "\u{0}", "\\u00e9"];

/// A document with one character replaced, or cut off.
fn spoil(c: &mut Ctx, t: &str, level: usize) -> String {
    let at: Vec<usize> = t.char_indices().map(|p| p.0).chain([t.len()]).collect();
    let k = c.pick(at.len());
    let (a, b) = (at[k], *at.get(k + 1).unwrap_or(&t.len()));
    match c.pick(if level == 0 { 6 } else { PUT.len() + 1 }) {
        0 => t[..a].to_string(),
        p => format!("{}{}{}", &t[..a], PUT[p - 1], &t[b..]),
    }
}

fn letters(c: &mut Ctx, o: &Ops, json: bool, level: usize) -> String {
    let x = if json { &o.json } else { &o.ron }.unwrap();
    let v = Gen::new(0).gen(c, &o.schema);
    let t = spoil(c, &(x.ser)(&v), level);
    let r = text((x.de)(&t));
    if o.schema.unordered() {
        return "-".into();
    }
    format!("{t} {r}")
}

pub const TOML: &[&str] = &[
    "a = 1\nb = -2.5\nc = \"x\\u00e9\\n\"\n",
    "[t]\nk = [1, [2, 3], \"s\"]\n[t.u]\nv = true\n",
    "[[p]]\nn = 'lit\\'\n[[p]]\nn = \"\"\"\nmulti\n\"\"\"\n",
    "d = 1979-05-27T07:32:00Z # c\n\"q k\" = inf\n",
    "a.b.c = nan\n0x = 1_000\n",
];

fn toml(c: &mut Ctx, level: usize) -> String {
    let k = c.pick(TOML.len());
    let t = spoil(c, TOML[k], level);
    match TomlParser::parse(&t) {
        Ok(m) => format!("{t} {m:?}"),
        Err(e) => format!("{t} error {}:{}", e.line, e.col),
    }
}

const NUMS: &[&str] = &[
    "0", "-0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647",
    "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
    "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e3", "1.0", "0.1", "1e400", "-1e-400",
    "3.4028235e38", "3.4028236e38", "1.17549435e-38", "1e-45", "123456789012345678901234567890", "4294967297.5", "16777217",
];

fn numeral(c: &mut Ctx, o: &Ops, json: bool) -> String {
    let t = NUMS[c.pick(NUMS.len())];
    let x = if json { &o.json } else { &o.ron }.unwrap();
    format!("{t} {}", text((x.de)(t)))
}

/// Counts no input can fill, in front of a few bytes.
pub const COUNTS: &[u64] =
    &[1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (3 << 32) + 1, 1 << 48, (1 << 56) + 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX];

/// A count which cannot be right in place of a right one, followed by as much
/// as the count cut to 32 bits would take.
fn counts(c: &mut Ctx, o: &Ops, level: usize) -> String {
    let x = o.bin.unwrap();
    let v = Gen::new(level).gen(c, &o.schema);
    let mut b = (x.ser)(&v);
    if b.len() < 8 {
        return "-".into();
    }
    // what comes behind the first one is in any order
    let k = if o.schema.unordered() { 0 } else { c.pick(b.len() - 7) };
    let n = u64::from_le_bytes(b[k..k + 8].try_into().unwrap());
    // it looks like one
    if n > 3 {
        return "-".into();
    }
    let w = c.pick(if level == 0 { 4 } else { 4 + COUNTS.len() });
    let w = if w < 4 { (1 << [32, 63, 33, 40][w]) + n } else { COUNTS[w - 4] };
    b[k..k + 8].copy_from_slice(&w.to_le_bytes());
    let r = bin((x.de)(&b));
    if matches!(*o.schema, S::Time) {
        return "-".into();
    }
    if o.schema.unordered() {
        return r;
    }
    format!("{} {r}", hex(&b))
}
const EMPTY: &[&str] = &["()", "[u8; 0]", "Empty", "UnitSt"];

pub fn tasks(level: usize) -> Vec<Task> {
    let mut v = vec![];
    for o in kinds() {
        let (a, b, d) = (o.clone(), o.clone(), o.clone());
        let leaf = matches!(*o.schema, S::U(_) | S::I(_) | S::F32 | S::F64 | S::Dur | S::Time | S::Bool | S::Str);
        v.push(task(format!("values of {}", o.name), if leaf { 1.max(level) } else { level }, move |c| trip(c, &a, 1 + level)));
        v.push(task(format!("bytes of {}", o.name), level / 2, move |c| bytes(c, &b, level)));
        if !EMPTY.iter().any(|e| o.name.contains(e)) {
            v.push(task(format!("counts of {}", o.name), 0, move |c| counts(c, &d, level)));
        }
        for json in [true, false] {
            let a = o.clone();
            if a.json.is_some() && (level > 0 || among_few(&a)) {
                v.push(task(format!("{} letters of {}", if json { "JSON" } else { "RON" }, o.name), 0, move |c| letters(c, &a, json, level)));
            }
            let a = o.clone();
            if a.json.is_some() && leaf {
                v.push(task(format!("{} numerals as {}", if json { "JSON" } else { "RON" }, o.name), 0, move |c| numeral(c, &a, json)));
            }
        }
    }
    v.push(task("TOML documents".into(), 0, move |c| toml(c, level)));
    v
}

/// All values and documents, and the bytes of types which are not large.
pub fn few(level: usize) -> Vec<Task> {
    let small = ["u64", "f32", "bool", "String", "Duration", "SystemTime", "Option<u8>", "Vec<u32>", "Vec<String>", "[String; 2]", "BTreeMap<String, u32>", "HashSet<u8>", "E", "(u8, u16)"];
    tasks(level).into_iter().filter(|t| !t.name.starts_with("counts") && t.name.strip_prefix("bytes of ").map_or(true, |n| small.contains(&n))).collect()
}

/// Types whose documents hold everything once.
fn among_few(o: &Ops) -> bool {
    ["u8", "i64", "f64", "String", "Duration", "Vec<String>", "[[u8; 2]; 2]", "BTreeMap<String, u32>", "Pt", "E", "Opts"].contains(&&o.name[..])
}

trait NonFinite {
    fn nonfinite_if(self, o: &Ops) -> Self;
}
impl NonFinite for Gen {
    /// Only binary has infinities.
    fn nonfinite_if(self, o: &Ops) -> Gen {
        if o.json.is_none() {
            self.nonfinite()
        } else {
            self
        }
    }
}
