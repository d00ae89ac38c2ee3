//! Documents and encodings with one part repeated any number of times: line
//! and column numbers, lengths, counts and depths on both sides of the places
//! where a narrower counter would wrap.

use crate::engine::*;
use crate::lexref::Flavor;
use crate::looks::{look, Mode};
use crate::types::by_name;

/// How often: every small number, and the neighbours of powers of two.
pub fn counts(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if th { 300 } else { 34 }).collect();
    v.extend([63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]);
    v.extend([32767, 32768, 65534, 65535, 65536, 65537, 70000]);
    if th {
        v.extend([8191, 8192, 8193, 16383, 16384, 16385, 32769, 131071, 131072, 131073, 262144]);
    }
    v.sort();
    v.dedup();
    v
}

/// `pre`, n times `unit` (with its number for `№`), `mid`, n times `close`, `post`.
#[derive(Clone)]
pub struct Pump {
    pub ty: &'static str,
    pub pre: String,
    pub unit: String,
    pub mid: String,
    pub close: String,
    pub post: String,
    pub max: usize,
}

impl Pump {
    fn new(ty: &'static str, pre: &str, unit: &str, post: &str) -> Pump {
        Pump { ty, pre: pre.into(), unit: unit.into(), mid: String::new(), close: String::new(), post: post.into(), max: usize::MAX }
    }
    fn nest(ty: &'static str, pre: &str, unit: &str, mid: &str, close: &str, post: &str) -> Pump {
        Pump { mid: mid.into(), close: close.into(), ..Pump::new(ty, pre, unit, post) }
    }
    fn max(mut self, n: usize) -> Pump {
        self.max = n;
        self
    }
    fn units(&self, n: usize) -> String {
        if self.unit.contains('№') {
            (0..n).map(|i| self.unit.replace('№', &i.to_string())).collect()
        } else {
            self.unit.repeat(n)
        }
    }
    /// The document, and faulty ones with the fault behind, in and around the repeated part.
    pub fn texts(&self, n: usize) -> Vec<String> {
        let Pump { pre, mid, close, post, .. } = self;
        let u = self.units(n);
        let whole = format!("{pre}{u}{mid}{}{post}", close.repeat(n));
        let mut cut = whole.clone();
        cut.pop();
        let mut v = vec![
            cut,
            format!("{pre}{u}"),
            format!("{pre}{u}?{mid}{}{post}", close.repeat(n)),
            format!("{pre}{u}{post}"),
            format!("{whole} ? = ?"),
        ];
        if !close.is_empty() {
            v.push(format!("{pre}{u}{mid}{}{post}", close.repeat(n.max(1) - 1)));
            v.push(format!("{pre}{u}{mid}{}{post}", close.repeat(n + 1)));
        }
        v.push(whole);
        v
    }
}

fn gaps(doc: &str, units: &[&str], ty: &'static str, out: &mut Vec<Pump>) {
    let parts: Vec<&str> = doc.split('~').collect();
    for k in 1..parts.len() {
        for u in units {
            out.push(Pump::new(ty, &parts[..k].concat(), u, &parts[k..].concat()));
        }
    }
}

const GAPS: &[&str] = &["\n", " ", "\t", "\r\n", "/**/", "//\n", "/*é\n*/ "];

/// Parts which are no different between JSON and RON.
fn common(v: &mut Vec<Pump>) {
    gaps("~[~1~,~2~,~3~]~", GAPS, "Vec<u8>", v);
    for (a, z) in [("/*", "*/1"), ("/**", "*/1"), ("//", "\n1"), ("1/*", "*/"), ("1//", ""), ("1//", "\n")] {
        for u in ["x", "*", "/", "é", " ", "\t"] {
            v.push(Pump::new("u8", a, u, z));
        }
    }
    v.push(Pump::new("u8", "/*", "\n", "*/1"));
    v.push(Pump::new("u8", "/*", "*\n", "*/1"));
    for u in ["a", "é", "😀", "/", "\\n", "\\\\", "\\\"", "\\u0041", "\\u00e9", "\\ud83d\\ude00", "a\\t"] {
        for z in ["\"", "\\n\"", "\\u00e9\"", "\\ud83d\\ude00b\"", "😀\""] {
            v.push(Pump::new("String", "\"", u, z));
        }
        v.push(Pump::new("Vec<String>", "[\"", u, "\", \"b\"]"));
        v.push(Pump::new("(String, String, String)", "[\"", u, "\", \"b\", \"c\"]"));
    }
    for ty in ["f64", "f32", "u8", "u64", "i64", "Vec<u8>"] {
        for (a, u, z) in [
            ("1", "0", ""),
            ("1", "0", ".5"),
            ("-1", "0", ""),
            ("0.", "0", "1"),
            ("0.", "3", ""),
            ("-0.", "9", "e1"),
            ("1.5", "0", "e2"),
            ("1e", "0", "2"),
            ("1e-", "0", "2"),
            ("25", "5", ""),
            ("9007199254740993.", "0", "1"),
            ("16777217.", "0", "1"),
            ("1.", "0", ""),
        ] {
            v.push(Pump::new(ty, a, u, z));
        }
    }
    for (ty, u) in [
        ("Vec<u8>", "1,"),
        ("Vec<u8>", "255, "),
        ("Vec<u32>", "№,"),
        ("Vec<i64>", "-№\n,"),
        ("LinkedList<i16>", "-1,"),
        ("Vec<String>", "\"№\","),
        ("Vec<bool>", "true,false,"),
        ("Vec<f32>", "0.5,"),
        ("Vec<Vec<u8>>", "[1,2],"),
        ("Vec<Vec<u8>>", "[],"),
        ("HashSet<String>", "\"№\","),
        ("BTreeSet<String>", "\"№\","),
    ] {
        for z in ["]", "]?"] {
            let max = if ty.contains("Set") { 5000 } else { usize::MAX };
            v.push(Pump::new(ty, "[", u, z).max(max));
        }
    }
    for (ty, u) in [("BTreeMap<String, u32>", "\"k№\":№,"), ("HashMap<String, Vec<u8>>", "\"k№\":[1],"), ("BTreeMap<String, Option<u8>>", "\"№\":7,")] {
        v.push(Pump::new(ty, "{", u, "}").max(5000));
        v.push(Pump::new(ty, "{", u, "\"last\":?}").max(5000));
    }
    for u in ["a", "é", "\\n", "\\u0041"] {
        v.push(Pump::new("BTreeMap<String, u32>", "{\"", u, "\":1,\"z\":2}"));
    }
}

fn json(v: &mut Vec<Pump>) {
    gaps("~{~\"x\"~:~1~,~\"y\"~:~2~}~", &["\n", " ", "\r\n", "/**/", "//é\n"], "Pt", v);
    gaps("{\"q\"~:~[~1~,~{~\"r\"~:~null~}~]~,\"x\":1,\"y\":2}", &["\n", " ", "/*]*/"], "Pt", v);
    gaps("~{~\"B\"~:~[~1~]~}~", &["\n", "/**/"], "E", v);
    // unknown keys and their values
    let z = ",\"x\":1,\"y\":2}";
    for (u, m, c) in [("[", "", "]"), ("[", "1", "]"), ("{\"a\":", "1", "}"), ("[{\"a\":", "[]", "}]"), ("[1,", "{}", ",2]"), ("[[],", "null", "]")] {
        v.push(Pump::nest("Pt", "{\"q\":", u, m, c, z));
        v.push(Pump::nest("Empty", "{\"q\":", u, m, c, "}"));
        v.push(Pump::nest("Pt", "{\"x\":1,\"q\":", u, m, c, ",\"y\":2}"));
    }
    for (a, u, e) in [("[", "1,", "2]"), ("[", "[],", "2]"), ("[", "[{}],", "2]"), ("{", "\"a\":1,", "\"b\":2}"), ("\"", "]", "\""), ("\"", "\\\"", "\""), ("1", "0", ""), ("0.", "1", "")] {
        v.push(Pump::new("Pt", &format!("{{\"q\":{a}"), u, &format!("{e}{z}")));
        v.push(Pump::new("Pt", &format!("{{\"x\":1,\"y\":2,\"q\":{a}"), u, &format!("{e}}}")));
    }
    for u in ["\"q\":1,", "\"q№\":[№],", "\"№\":{\"x\":3},", "\"\":null,"] {
        v.push(Pump::new("Pt", "{", u, "\"x\":1,\"y\":2}"));
        v.push(Pump::new("Pt", "{\"y\":2,", u, "\"x\":1}"));
        v.push(Pump::new("Pt", "{", u, "\"x\":1}"));
        v.push(Pump::new("Empty", "{", u, "\"x\":1}"));
    }
    for u in ["x", "q", "é", "\\u0071"] {
        v.push(Pump::new("Pt", "{\"x", u, "\":1,\"x\":1,\"y\":2}"));
        v.push(Pump::new("E", "\"A", u, "\""));
        v.push(Pump::new("E", "{\"B", u, "\":[1]}"));
    }
    for (ty, u) in [
        ("Vec<Pt>", "{\"x\":№,\"y\":1},"),
        ("Vec<E>", "\"A\","),
        ("Vec<E>", "{\"B\":[1]},\"F\",{\"D\":{\"x\":№}},"),
        ("Vec<()>", "null,"),
        ("Vec<Option<i32>>", "null,№,"),
        ("Vec<(u8, bool)>", "[1,true],"),
        ("Vec<[u8; 2]>", "[1,2],"),
    ] {
        v.push(Pump::new(ty, "[", u, "]"));
    }
    v.push(Pump::nest("List", "", "{\"v\":1,\"next\":", "null", "}", "").max(300));
    v.push(Pump::nest("Tree", "", "{\"Many\":{\"kids\":[", "", "]}}", "").max(150));
}

fn ron(v: &mut Vec<Pump>) {
    gaps("~(~x~:~1~,~y~:~2~)~", &["\n", " ", "\r\n", "/**/", "//é\n"], "Pt", v);
    gaps("~B~(~1~)~", &["\n", "/**/"], "E", v);
    gaps("~(~1~,~\"a\"~)~", &["\n", "/**/"], "Duo", v);
    for u in ["x", "q", "_"] {
        v.push(Pump::new("Pt", "(x", u, ":1,x:1,y:2)"));
        v.push(Pump::new("E", "A", u, ""));
        v.push(Pump::new("E", "B", u, "(1)"));
        v.push(Pump::new("bool", "tru", u, ""));
    }
    for (ty, u) in [
        ("Vec<Pt>", "(x:№,y:1),"),
        ("Vec<E>", "A,"),
        ("Vec<E>", "B(1),F,D(x:№),"),
        ("Vec<()>", "(),"),
        ("Vec<Option<i32>>", "None,№,"),
        ("Vec<(u8, bool)>", "(1,true),"),
        ("Vec<[u8; 2]>", "(1,2),"),
    ] {
        v.push(Pump::new(ty, "[", u, "]"));
    }
    v.push(Pump::nest("List", "", "(v:1,next:", "None", ")", "").max(300));
    v.push(Pump::nest("Tree", "", "Many(kids:[", "", "])", "").max(150));
}

pub fn texts(m: Mode, fl: Flavor, th: bool) -> Vec<Task> {
    let mut v = vec![];
    common(&mut v);
    if fl == Flavor::Json {
        json(&mut v)
    } else {
        ron(&mut v)
    }
    v.into_iter()
        .enumerate()
        .map(|(k, p)| {
            let o = by_name(&[p.ty]).remove(0);
            let ns = counts(th);
            task(format!("pump {k} as {}", p.ty), 0, 1, move |ctx| {
                let n = ns[ctx.pick(ns.len())];
                if n > p.max {
                    return;
                }
                ctx.sample(|| format!("{} from {:?}, {n} x {:?}, {:?}, {:?}", p.ty, p.pre, p.unit, p.mid, p.post));
                for t in p.texts(n) {
                    look(ctx, m, fl, &o, &t);
                }
            })
        })
        .collect()
}

/// The same for TOML.
pub fn toml() -> Vec<Pump> {
    let mut v = vec![];
    gaps("~a = [~1~,~2~]~\nb = 1~\n~[t]~\n~c = 1", &["\n", " ", "\t", "\r\n", " # c\n", "#é\n", "\n\n"], "", &mut v);
    gaps("a~ ~=~ ~1\n~[~t~]\n~[[~z~]]~\n~b = 2", &[" ", "\t"], "", &mut v);
    for (a, u, z) in [
        ("", "a", " = 1"),
        ("k", "1", " = 1"),
        ("", "1", " = 1"),
        ("", "-", " = 1"),
        ("", "_", " = 1"),
        ("", "é", " = 1"),
        ("", "a.", "b = 1"),
        ("", "1.", "1 = 1"),
        ("1", "_", " = 1"),
        ("\"", "a", "\" = 1"),
        ("\"", "\\n", "\" = 1"),
        ("\"", "é", "\" = 1"),
        ("[", "a", "]\nb = 1"),
        ("[", "a.", "b]\nb = 1"),
        ("[[", "a", "]]\nb = 1"),
        ("[\"", "é", "\"]\nb = 1"),
        ("a = \"", "a", "\"\nb = 1"),
        ("a = \"", "é", "\"\nb = 1"),
        ("a = \"", "😀", "\"\nb = 1"),
        ("a = \"", "#", "\"\nb = 1"),
        ("a = \"", "\\n", "\"\nb = 1"),
        ("a = \"", "\\\"", "\"\nb = 1"),
        ("a = \"", "\\u00e9", "\"\nb = 1"),
        ("a = \"", "\\U0001F600", "\"\nb = 1"),
        ("a = \"\"\"", "\n", "\"\"\"\nb = 1"),
        ("a = \"\"\"", "x\n", "\"\"\"\nb = 1"),
        ("a = \"\"\"", "\"\"x", "\"\"\"\nb = 1"),
        ("a = \"\"\"", "\\\n ", "\"\"\"\nb = 1"),
        ("a = \"\"\"x\\\n", " ", "y\"\"\"\nb = 1"),
        ("a = \"\"\"x\\\n", "\n", "y\"\"\"\nb = 1"),
        ("a = ", "1", "\nb = 1"),
        ("a = -", "1", "\nb = 1"),
        ("a = 1", "_0", "\nb = 1"),
        ("a = 0.", "0", "1\nb = 1"),
        ("a = 0.", "3", "\nb = 1"),
        ("a = 1", "0", ".5\nb = 1"),
        ("a = 9007199254740993.", "0", "1\nb = 1"),
        ("a = 0.1", "_1", "\nb = 1"),
        ("a = [", "1,", "]\nb = 1"),
        ("a = [", "1№,", "]\nb = 1"),
        ("a = [", "\"x№\", ", "]\nb = 1"),
        ("a = [", "[],", "]\nb = 1"),
        ("a = [", "[true],\n", "2]\nb = 1"),
        ("a = [", "inf,", "]\nb = 1"),
        ("a = [", "1979-05-27,", "]\nb = 1"),
        ("", "k№ = №\n", "b = 1"),
        ("", "k№.a = \"№\"\r\n", "b = 1"),
        ("[t]\n", "k№ = №\n", "b = 1"),
        ("[[t]]\n", "k№ = №\n", "b = 1"),
        ("", "[t№]\na = №\n", "b = 1"),
        ("", "[[z]]\na = №\n", "b = 1"),
        ("", "[[z]]\n", "b = 1"),
        ("[[z]]\n", "[[z№]]\na = №\n", "[[z]]\nb = 1"),
        ("", "[[z]]\na = №\n[[y]]\nb = №\n", "b = 1"),
        ("", "[[z]]\na = №\n[t]\nb№ = №\n", "b = 1"),
    ] {
        let many = u.contains("k№") || u.contains("t№") || u.contains("z№") || u.contains("b№");
        v.push(Pump::new("", a, u, z).max(if many { 5000 } else { usize::MAX }));
    }
    v.push(Pump::nest("", "a = ", "[", "", "]", "\nb = 1").max(300));
    v.push(Pump::nest("", "a = ", "[1, ", "\"x\"", ", 2]", "\nb = 1").max(300));
    v.push(Pump::nest("", "a = [", "[\n", "# c\n", "] # ]\n,", "]\nb = 1").max(300));
    v
}
