//! Everything a configuration does within bounds, summed up by topic: a topic which
//! two configurations have in common has to come to the same in both.
#![allow(dead_code, unused_imports, unused_macros, unused_variables, unused_mut)]
extern crate alloc;
use std::collections::{BTreeMap, BTreeSet, LinkedList};
use std::panic::{catch_unwind, AssertUnwindSafe};
include!("types.rs");

struct Out {
    /// Print the cases of one topic instead of the sums.
    show: Option<String>,
    deep: bool,
}

struct Topic<'a> {
    out: &'a mut Out,
    name: String,
    sum: u64,
    n: u64,
    show: bool,
}

impl Out {
    fn topic(&mut self, name: String, f: impl FnOnce(&mut Topic)) {
        let show = self.show.as_ref() == Some(&name);
        if self.show.is_some() && !show {
            return;
        }
        let mut t = Topic { out: self, name, sum: 0xcbf29ce484222325, n: 0, show };
        f(&mut t);
        if !show {
            println!("{}\t{}\t{:016x}", t.name, t.n, t.sum);
        }
    }
}
impl Topic<'_> {
    fn case(&mut self, what: &dyn Fn() -> String, result: &str) {
        self.n += 1;
        for b in result.bytes().chain([0xff]) {
            self.sum = (self.sum ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if self.show {
            println!("{}\t{}\t=> {}", self.n, what().escape_debug(), result.escape_debug());
        }
    }
    fn run(&mut self, what: &dyn Fn() -> String, f: impl FnOnce() -> String) {
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panicked".into());
        self.case(what, &r);
    }
}

/// All sequences of up to n tokens.
fn sequences(alphabet: &[&str], n: usize, f: &mut dyn FnMut(&str)) {
    fn go(a: &[&str], n: usize, text: &mut String, f: &mut dyn FnMut(&str)) {
        f(text);
        if n == 0 {
            return;
        }
        for t in a {
            let len = text.len();
            text.push_str(t);
            text.push(' ');
            go(a, n - 1, text, f);
            text.truncate(len);
        }
    }
    go(alphabet, n, &mut String::new(), f)
}
/// All documents one or two edits away from a document.
fn edits(base: &str, alphabet: &[&str], n: usize, f: &mut dyn FnMut(&str)) {
    fn go(t: &[&str], a: &[&str], from: usize, n: usize, f: &mut dyn FnMut(&str)) {
        f(&t.join(" "));
        if n == 0 {
            return;
        }
        for i in from..=t.len() {
            if i < t.len() {
                let mut u = t.to_vec();
                u.remove(i);
                go(&u, a, i, n - 1, f);
            }
            for x in a {
                let mut u = t.to_vec();
                u.insert(i, x);
                go(&u, a, i + 1, n - 1, f);
                if i < t.len() {
                    let mut u = t.to_vec();
                    u[i] = x;
                    go(&u, a, i + 1, n - 1, f);
                }
            }
        }
    }
    let t: Vec<&str> = base.split_whitespace().collect();
    go(&t, alphabet, 0, n, f)
}

fn texts() -> Vec<String> {
    let mut v: Vec<String> = (0u32..0x800).chain(0x2000..0x2100).chain([0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]).filter_map(char::from_u32).map(|c| format!("a{c}b")).collect();
    v.push(String::new());
    v.push("x".repeat(300));
    v
}
fn f32s() -> impl Iterator<Item = f32> {
    (0..=0xffffu32).flat_map(|h| [0, 1, 0xffff].map(|l| f32::from_bits(h << 16 | l)))
}
fn f64s() -> impl Iterator<Item = f64> {
    (0..=0xffffu64).flat_map(|h| [0, 1, 0xffff_ffff_ffff].map(|l| f64::from_bits(h << 48 | l)))
}

fn pts() -> Vec<Pt> {
    let mut v = vec![];
    for a in [0, 255] {
        for b in [None, Some(String::new()), Some("q\"\\\n\u{e9}".to_string())] {
            for c in [vec![], vec![-1], vec![i16::MIN, i16::MAX]] {
                v.push(Pt { a, b: b.clone(), c });
            }
        }
    }
    v
}
fn ens() -> Vec<En> {
    let mut v = vec![En::V, En::A(3), En::B(true, None), En::B(false, Some(9)), En::D];
    for x in [None, Some(1)] {
        for y in ["", "y", "\u{1f600}"] {
            v.push(En::C { x, y: y.to_string() });
        }
    }
    v
}
fn nes() -> Vec<Ne> {
    let mut v: Vec<Ne> = vec![];
    for p in pts() {
        for r in [vec![], vec![("k".to_string(), En::V)], ens().into_iter().enumerate().map(|(i, e)| (format!("k{i}"), e)).collect()] {
            let q = v.last().filter(|_| v.len() % 3 == 0).map(|x| Box::new(x.clone()));
            let q = q.filter(|q| q.q.is_none());
            v.push(Ne { p: p.clone(), q, r: r.into_iter().collect() });
        }
    }
    v
}
#[cfg(any(feature = "binary", feature = "json", feature = "ron"))]
fn ats() -> Vec<At> {
    let mut v = vec![];
    for f in [None, Some(8)] {
        for b in ["", "b"] {
            v.push(At { a: 1, b: b.to_string(), c: 2, d: 300, e: 4, f, g: "g".to_string() });
        }
    }
    v
}

#[cfg(feature = "binary")]
fn binary(out: &mut Out) {
    use nanoserde::{DeBin, SerBin};
    fn trip<T: DeBin + SerBin + std::fmt::Debug>(t: &mut Topic, x: T) {
        t.run(&|| format!("{x:?}"), || {
            let b = x.serialize_bin();
            format!("{b:?} {:?} {:?}", T::deserialize_bin(&b), T::deserialize_bin(&b[..b.len().saturating_sub(1)]))
        })
    }
    out.topic("binary values".into(), |t| {
        texts().into_iter().for_each(|x| trip(t, x));
        f32s().for_each(|x| trip(t, x));
        f64s().for_each(|x| trip(t, x));
        pts().into_iter().for_each(|x| trip(t, x));
        ens().into_iter().for_each(|x| trip(t, x));
        nes().into_iter().for_each(|x| trip(t, x));
        ats().into_iter().for_each(|x| trip(t, x));
        trip(t, (Tu(1, "x".into()), Nt(1.5), Un, Em {}));
        trip(t, (Units::W, Co { a: 1, b: vec!["q".into()] }, Pr { n: 77 }));
        trip(t, Ge { t: Pt { a: 1, b: None, c: vec![] }, u: pts() });
        trip(t, (vec![BTreeSet::from([1u8, 2])], LinkedList::from([1.5f64]), [i128::MIN, i128::MAX], Box::new(u128::MAX)));
        trip(t, (BTreeMap::from([(1u8, "x".to_string())]), Some(Tr(4)), Cr { a: -3 }, ((), usize::MAX, pair())));
        trip(t, (std::time::Duration::new(5, 6), u16::MAX, i8::MIN, true));
        trip(t, (std::time::Duration::MAX, u32::MAX, i64::MIN, i16::MIN));
    });
    out.topic("binary input".into(), |t| {
        const ALPHABET: [u8; 9] = [0, 1, 2, 3, 7, 0x61, 0x7f, 0x80, 0xff];
        fn read<T: DeBin + std::fmt::Debug>(t: &mut Topic, b: &[u8]) {
            t.run(&|| format!("{} {b:?}", std::any::type_name::<T>()), || format!("{:?}", T::deserialize_bin(b)))
        }
        let n = if t.out.deep { 5 } else { 4 };
        let mut stack: Vec<Vec<u8>> = vec![vec![]];
        while let Some(b) = stack.pop() {
            let mut wide = b.clone();
            // lengths are 8 bytes
            if b.len() > 1 {
                wide.splice(1..1, [0; 7]);
            }
            for b in [&b, &wide] {
                read::<Option<u8>>(t, b);
                read::<(bool, Option<u16>)>(t, b);
                read::<En>(t, b);
                read::<String>(t, b);
                read::<Vec<u8>>(t, b);
                read::<Units>(t, b);
                read::<Tu>(t, b);
                read::<Pt>(t, b);
                read::<Nt>(t, b);
                read::<[i8; 3]>(t, b);
                read::<BTreeMap<u8, bool>>(t, b);
                read::<std::time::Duration>(t, b);
                read::<At>(t, b);
            }
            if b.len() < n {
                for x in ALPHABET {
                    let mut c = b.clone();
                    c.push(x);
                    stack.push(c);
                }
            }
        }
    });
    #[cfg(feature = "std")]
    out.topic("binary of std".into(), |t| {
        use std::collections::{HashMap, HashSet};
        use std::time::{Duration, SystemTime};
        trip(t, HashMap::from([(1u8, "x".to_string())]));
        trip(t, HashSet::from(["x".to_string()]));
        trip(t, SystemTime::UNIX_EPOCH + Duration::new(3, 4));
    });
}
fn pair() -> (u8, String) {
    (9, "nine".into())
}

macro_rules! text_format {
    ($name:ident, $label:literal, $De:ident, $Ser:ident, $de:ident, $ser:ident, $alphabet:expr, $bases:expr) => {
        fn $name(out: &mut Out) {
            use nanoserde::{$De, $Ser};
            fn trip<T: $De + $Ser + std::fmt::Debug>(t: &mut Topic, x: T) {
                t.run(&|| format!("{x:?}"), || {
                    let b = x.$ser();
                    let cut = b.char_indices().next_back().map_or(0, |x| x.0);
                    format!("{b} {:?} {:?}", T::$de(&b), T::$de(&b[..cut]).map_err(|e| e.to_string()))
                })
            }
            fn read<T: $De + std::fmt::Debug>(t: &mut Topic, b: &str) {
                t.run(&|| format!("{} {b:?}", std::any::type_name::<T>()), || match T::$de(b) {
                    Ok(x) => format!("{x:?}"),
                    Err(e) => format!("{e} {e:?} {} {}", e.line, e.col),
                })
            }
            out.topic(concat!($label, " values").into(), |t| {
                texts().into_iter().for_each(|x| trip(t, x));
                f32s().for_each(|x| trip(t, x));
                f64s().for_each(|x| trip(t, x));
                pts().into_iter().for_each(|x| trip(t, x));
                ens().into_iter().for_each(|x| trip(t, x));
                nes().into_iter().for_each(|x| trip(t, x));
                ats().into_iter().for_each(|x| trip(t, x));
                trip(t, (Tu(1, "x".into()), Nt(1.5), Un, Em {}));
                trip(t, (Units::W, Co { a: 1, b: vec!["q".into()] }, true, 'x' as u8));
                trip(t, Ge { t: Pt { a: 1, b: None, c: vec![] }, u: pts() });
                trip(t, (vec![BTreeSet::from([1u8, 2])], LinkedList::from([1.5f64]), [i64::MIN, i64::MAX], Box::new(u64::MAX)));
                trip(t, (BTreeMap::from([("k".to_string(), "x".to_string())]), vec![Tr(4)], Cr { a: -3 }, ((), usize::MAX, pair())));
                trip(t, (std::time::Duration::new(5, 6), u16::MAX, i8::MIN, true));
                trip(t, (std::time::Duration::MAX, u32::MAX, i64::MIN, i16::MIN));
            });
            const ALPHABET: &[&str] = $alphabet;
            out.topic(concat!($label, " sequences").into(), |t| {
                let n = if t.out.deep { 4 } else { 3 };
                sequences(ALPHABET, n, &mut |b| {
                    read::<Pt>(t, b);
                    read::<En>(t, b);
                    read::<Vec<i16>>(t, b);
                    read::<(u8, String)>(t, b);
                    read::<BTreeMap<String, f64>>(t, b);
                    read::<String>(t, b);
                    read::<Option<f32>>(t, b);
                    read::<[bool; 1]>(t, b);
                    read::<Em>(t, b);
                });
            });
            out.topic(concat!($label, " documents").into(), |t| {
                let deep = t.out.deep;
                for b in $bases {
                    let n = if deep && b.split_whitespace().count() < 12 { 2 } else { 1 };
                    edits(b, ALPHABET, n, &mut |b| {
                        read::<Pt>(t, b);
                        read::<En>(t, b);
                        read::<At>(t, b);
                        read::<Co>(t, b);
                        read::<Ne>(t, b);
                        read::<Ge<u8>>(t, b);
                        read::<(Tu, Vec<Tr>)>(t, b);
                        read::<std::time::Duration>(t, b);
                    });
                }
            });
            #[cfg(feature = "std")]
            out.topic(concat!($label, " of std").into(), |t| {
                use std::collections::{HashMap, HashSet};
                use std::time::{Duration, SystemTime};
                trip(t, HashMap::from([("k".to_string(), "x".to_string())]));
                trip(t, HashSet::from(["x".to_string()]));
                trip(t, SystemTime::UNIX_EPOCH + Duration::new(3, 4));
            });
        }
    };
}

#[cfg(feature = "json")]
text_format!(
    json, "JSON", DeJson, SerJson, deserialize_json, serialize_json,
    &["{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "\"V\"", "\"A\"", "\"\\u00e9\\n\"", "1", "-2.5e1", "300", "true", "null", "/*c*/", "//d\n", "zz", "\"\\q\""],
    ["{ \"a\" : 1 , \"b\" : \"x\" , \"c\" : [ 1 , -2 ] }", "{ \"A\" : [ 3 ] }", "{ \"B\" : [ true , null ] }", "{ \"C\" : { \"x\" : 1 , \"y\" : \"q\" } }",
     "{ \"aa\" : 1 , \"b\" : \"b\" , \"c\" : 2 , \"d\" : 3 , \"f\" : null , \"g\" : \"g\" }", "{ \"t\" : 1 , \"u\" : [ 2 ] }", "[ [ 1 , \"x\" ] , [ 4 ] ]", "{ \"secs\" : 1 , \"nanos\" : 2 }",
     "{ \"p\" : { \"a\" : 1 , \"c\" : [ ] } , \"q\" : null , \"r\" : { \"k\" : \"V\" } }"]
);
#[cfg(feature = "json")]
fn json_proxies(out: &mut Out) {
    use nanoserde::{DeJson, SerJson};
    out.topic("JSON proxies".into(), |t| {
        for n in 0..=u16::MAX {
            let x = (Pr { n }, vec![Pr { n: 3 }]);
            t.run(&|| n.to_string(), || { let s = x.serialize_json(); format!("{s} {:?}", <(Pr, Vec<Pr>)>::deserialize_json(&s)) });
        }
    });
}
#[cfg(feature = "ron")]
text_format!(
    ron, "RON", DeRon, SerRon, deserialize_ron, serialize_ron,
    &["{", "}", "[", "]", ",", ":", "(", ")", "a", "b", "V", "A", "\"\\u00e9\\n\"", "1", "-2.5e1", "300", "true", "None", "/*c*/", "//d\n", "'x'", "\"\\q\""],
    ["( a : 1 , b : \"x\" , c : [ 1 , -2 ] )", "A ( 3 )", "B ( true , None )", "C ( x : 1 , y : \"q\" )", "( aa : 1 , b : \"b\" , c : 2 , d : 3 , f : None , g : \"g\" )", "( t : 1 , u : [ 2 ] )",
     "( ( 1 , \"x\" ) , [ ( 4 ) ] )", "( secs : 1 , nanos : 2 )", "( p : ( a : 1 , c : [ ] ) , q : None , r : { \"k\" : V } )"]
);
#[cfg(feature = "toml")]
fn toml(out: &mut Out) {
    fn read(t: &mut Topic, b: &str) {
        t.run(&|| b.to_string(), || match nanoserde::TomlParser::parse(b) {
            Ok(x) => format!("{x:?}"),
            Err(e) => format!("{e} {e:?}"),
        })
    }
    const ALPHABET: &[&str] = &["[", "]", "[[", "]]", "{", "}", ",", "=", ".", "a", "b-c", "\"s\\n\"", "'l'", "1", "-2.5e1", "0x1F", "true", "inf", "2020-01-02T03:04:05Z", "\n", "#c\n", "1_000"];
    out.topic("TOML sequences".into(), |t| {
        let n = if t.out.deep { 5 } else { 4 };
        sequences(ALPHABET, n, &mut |b| read(t, b));
    });
    out.topic("TOML documents".into(), |t| {
        let deep = t.out.deep;
        for b in ["a = 1 \n b = [ 1 , 'l' ] \n [ t ] \n c = true", "[[ x ]] \n a = 1 \n [[ x ]] \n b = \"s\"", "a . b = 1 \n [ q . r ] \n 'k' = nan \n d = 2020-01-02"] {
            let b = b.replace('\n', "%");
            edits(&b, ALPHABET, if deep { 2 } else { 1 }, &mut |b| read(t, &b.replace('%', "\n")));
        }
    });
    out.topic("TOML strings".into(), |t| {
        for x in texts() {
            for q in ["\"", "'", "\"\"\"", "'''", ""] {
                read(t, &format!("k = {q}{x}{q}\n"));
                read(t, &format!("{q}{x}{q} = 1\n"));
                read(t, &format!("k = 1 # {x}\nj = 2"));
            }
        }
        for x in f64s() {
            read(t, &format!("k = {x:?}"));
        }
    });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mut out = Out { show: args.get(2).cloned(), deep: args.get(1).map_or(false, |x| x == "thorough") };
    #[cfg(feature = "binary")]
    binary(&mut out);
    #[cfg(feature = "json")]
    {
        json(&mut out);
        json_proxies(&mut out);
    }
    #[cfg(feature = "ron")]
    ron(&mut out);
    #[cfg(feature = "toml")]
    toml(&mut out);
    println!("end");
}
