//! Arbitrary text decoded as every type: C07, C08, C09, C11, C12, C13 and the
//! text part of C19.

use crate::engine::*;
use crate::gen::*;
use crate::lexref::Flavor;
use crate::looks::*;
use crate::schema::*;
use crate::textref::*;
use crate::types::*;

// -------------------------------------------------------------------- tries

/// All character sequences behind a prefix, up to a depth, as far as they matter.
struct CharTrie {
    ty: &'static str,
    pre: &'static str,
    post: &'static str,
    abc: &'static str,
    depth: [usize; 2],
}

fn grow(ctx: &mut Ctx, m: Mode, fl: Flavor, o: &Ops, text: &mut String, post: &str, abc: &[&str], left: usize) {
    if ctx.stopped() {
        return;
    }
    let more = look(ctx, m, fl, o, text);
    if !more {
        return;
    }
    if !post.is_empty() {
        let n = text.len();
        text.push_str(post);
        look(ctx, m, fl, o, text);
        text.truncate(n);
    }
    if left == 0 {
        return;
    }
    for c in abc {
        ctx.stats.transitions += 1;
        let n = text.len();
        text.push_str(c);
        grow(ctx, m, fl, o, text, post, abc, left - 1);
        text.truncate(n);
    }
}

fn trie_task(m: Mode, fl: Flavor, o: &Ops, name: String, pre: String, post: String, abc: Vec<String>, depth: usize) -> Task {
    let o = o.clone();
    task(name, 0, 2, move |ctx| {
        let refs: Vec<&str> = abc.iter().map(|s| &s[..]).collect();
        let mut t = pre.clone();
        // the first two steps are choices, so that they spread over the workers
        for step in 0..2.min(depth) {
            let k = ctx.pick(refs.len() + 1);
            if k == refs.len() {
                let more = look(ctx, m, fl, &o, &t);
                if more && !post.is_empty() {
                    look(ctx, m, fl, &o, &format!("{t}{post}"));
                }
                return;
            }
            t.push_str(refs[k]);
            let _ = step;
        }
        ctx.sample(|| format!("{} from all continuations of {t:?}", o.name));
        grow(ctx, m, fl, &o, &mut t, &post, &refs, depth - 2.min(depth));
    })
}

const FULL: &str = "{}[],:\"\\/*-.01eEu8dnt \n\0é";
const FULL_RON: &str = "{}[](),:\"\\/*-.01eu8dnA_ \n\0é'+";

fn json_tries() -> Vec<CharTrie> {
    let t = |ty, pre, post, abc, a, b| CharTrie { ty, pre, post, abc, depth: [a, b] };
    vec![
        t("u8", "", "", FULL, 5, 6),
        t("String", "", "", FULL, 4, 5),
        t("Vec<u8>", "", "", FULL, 4, 6),
        t("Option<u8>", "", "", FULL, 4, 5),
        t("Pt", "", "", FULL, 4, 5),
        t("E", "", "", FULL, 4, 5),
        t("bool", "", "", "truefals\"10 \0", 5, 7),
        t("Option<u8>", "", "", "nul1\" \0", 6, 8),
        t("Vec<()>", "[", "]", "nul, \"]", 6, 8),
        t("u8", "", "", "0125-+.eE /", 6, 7),
        t("i8", "", "", "0128-+.eE,", 6, 7),
        t("u64", "1844674407370955", "", "0156-.e", 6, 7),
        t("i64", "-922337203685477", "", "0578-.e", 6, 7),
        t("f64", "", "", "015-+.eE ", 6, 8),
        t("f32", "[", "", "0-.eE", 3, 4),
        t("u8", "", "1", "/* \n1\0a", 7, 8),
        t("u8", "/*", "*/1", "/*\na1é", 7, 8),
        t("String", "\"", "\"", "\\\"u0dD8cEfg/n\u{1}é\0", 5, 6),
        t("String", "\"\\u", "\"", "0dDcCfF8gG\\u\"", 5, 6),
        t("String", "\"\\uD83D", "\"", "\\uUdDeEfF08\"x", 6, 7),
        t("Opts", "{\"b\":\"\",\"z\":", "}", "{}[],:\"1-n\\/ ", 6, 7),
        t("Opts", "{\"b\":\"\",\"z\":[", "]}", "{}[],:\"1/*", 6, 7),
        t("Empty", "{\"z\":{", "}}", "{}[],:\"1n", 6, 7),
        t("Pt", "{\"x\":1,", "\"y\":2}", "{}[],:\"1xz ", 6, 7),
        t("Vec<(u8, bool)>", "[", "]", "[],1true", 6, 8),
        t("[u8; 2]", "", "", "[],12 ", 7, 8),
        t("E", "{\"B\":", "}", "[]{},1\"a:", 6, 7),
        t("E", "{\"D\":{", "}}", "\"xy:,1}null", 5, 6),
        t("Duration", "{", "}", "\"secs:1,no}", 5, 6),
        t("BTreeMap<String, u32>", "{", "}", "\"a:,1{}[", 6, 7),
    ]
}
fn ron_tries() -> Vec<CharTrie> {
    let t = |ty, pre, post, abc, a, b| CharTrie { ty, pre, post, abc, depth: [a, b] };
    vec![
        t("u8", "", "", FULL_RON, 4, 5),
        t("String", "", "", FULL_RON, 4, 5),
        t("Vec<u8>", "", "", FULL_RON, 4, 5),
        t("Option<u8>", "", "", FULL_RON, 4, 5),
        t("Pt", "", "", FULL_RON, 4, 5),
        t("E", "", "", FULL_RON, 4, 5),
        t("bool", "", "", "truefals\"10 \0", 5, 7),
        t("Option<u8>", "", "", "None1S( \0", 6, 7),
        t("u8", "", "", "0125-+.eE /", 6, 7),
        t("i8", "", "", "0128-+.eE,", 6, 7),
        t("u64", "1844674407370955", "", "0156-.e", 6, 7),
        t("i64", "-922337203685477", "", "0578-.e", 6, 7),
        t("f64", "", "", "015-+.eE ", 6, 8),
        t("u8", "", "1", "/* \n1\0a", 7, 8),
        t("u8", "/*", "*/1", "/*\na1é", 7, 8),
        t("String", "\"", "\"", "\\\"u0dD8cEfg/n\u{1}é\0", 5, 6),
        t("String", "\"\\u", "\"", "0dDcCfF8gG\\u\"", 5, 6),
        t("String", "\"\\uD83D", "\"", "\\uUdDeEfF08\"x", 6, 7),
        t("String", "'", "'", "'\\a\"u0é", 5, 6),
        t("Pt", "(x:1,", "y:2)", "(){}:,1xyz ", 6, 7),
        t("Opts", "(b:\"\",", ")", "acd:,None1\"[(", 5, 6),
        t("Vec<(u8, bool)>", "[", "]", "(),1true[", 6, 7),
        t("[u8; 2]", "", "", "(),12 [", 7, 8),
        t("E", "B(", ")", "(){},1\"a:", 6, 7),
        t("E", "D(", ")", "xy:,1()None", 5, 6),
        t("Duration", "{", "}", "\"secs:1,no}", 5, 6),
        t("BTreeMap<String, u32>", "{", "}", "\"a:,1{}(", 6, 7),
        t("()", "", "", "()/* ", 6, 7),
        t("UnitSt", "", "", "(){},a ", 6, 7),
    ]
}

/// All token sequences, as far as they matter.
fn token_tries(fl: Flavor) -> Vec<(&'static str, &'static str, [usize; 2])> {
    match fl {
        Flavor::Json => vec![
            ("Pt", "{ } [ ] , : 1 -1 300 \"x\" \"y\" \"z\" null", [8, 9]),
            ("Opts", "{ } [ ] , : 1 \"a\" \"b\" \"c\" \"d\" null", [7, 8]),
            ("E", "{ } [ ] , : 1 \"A\" \"B\" \"C\" \"D\" \"x\" \"y\" null true", [6, 8]),
            ("Plain", "{ } [ ] , : 1 \"Red\" \"Blue\" \"x\" null", [6, 7]),
            ("Tree", "{ } [ ] , : 1 \"Leaf\" \"Node\" \"Many\" \"kids\"", [7, 9]),
            ("List", "{ } [ ] , : 1 \"v\" \"next\" null", [8, 9]),
            ("Trio", "[ ] { } , : 1 null \"x\" \"y\" \"A\" \"F\"", [7, 8]),
            ("Duo", "[ ] { } , : 1 256 \"s\" null", [7, 8]),
            ("Vec<Vec<u8>>", "[ ] , 1 256 null {", [8, 10]),
            ("[[u8; 2]; 2]", "[ ] , 1 -1", [11, 13]),
            ("(u8, String, bool)", "[ ] , 1 \"s\" true null", [8, 9]),
            ("((u8, u8), [u8; 2])", "[ ] , 1", [11, 13]),
            ("BTreeMap<String, Option<u8>>", "{ } [ ] , : 1 \"k\" \"l\" null", [8, 9]),
            ("BTreeMap<u8, String>", "{ } , : 1 2 \"s\" null", [8, 9]),
            ("Option<(u8, u8)>", "[ ] , 1 null true", [8, 9]),
            ("Duration", "{ } , : 1 1000000001 -1 \"secs\" \"nanos\" \"x\"", [8, 9]),
            ("SystemTime", "{ } , : 1 null \"secs\" \"nanos\"", [8, 9]),
            ("Empty", "{ } [ ] , : 1 \"x\" null true", [7, 8]),
            ("UnitSt", "{ } [ ] , : 1 \"x\" null", [7, 8]),
            ("Vec<()>", "[ ] , null 1", [8, 10]),
            ("Hashes", "{ } [ ] , : 1 2 \"b\" \"k\"", [7, 8]),
            ("LinkedList<Vec<u8>>", "[ ] , 1 {", [8, 10]),
            ("Wrap", "{ } [ ] , : 1 \"P\" \"T\" \"V\" \"x\" \"y\"", [6, 8]),
        ],
        Flavor::Ron => vec![
            ("Pt", "( ) { } [ ] , : 1 -1 300 x y z None", [8, 9]),
            ("Opts", "( ) [ ] , : 1 a b c d \"s\" None", [7, 8]),
            ("E", "( ) [ ] , : 1 A B C D x y None true \"s\"", [6, 8]),
            ("Plain", "( ) [ ] , : 1 Red Blue x \"Red\"", [6, 7]),
            ("Tree", "( ) [ ] , : 1 Leaf Node Many kids", [7, 9]),
            ("List", "( ) { , : 1 v next None", [8, 9]),
            ("Trio", "( ) [ ] , : 1 None x y A F", [7, 8]),
            ("Duo", "( ) [ ] , : 1 256 \"s\" None", [7, 8]),
            ("Vec<Vec<u8>>", "[ ] , 1 256 None (", [8, 10]),
            ("[[u8; 2]; 2]", "( ) , 1 -1", [11, 13]),
            ("(u8, String, bool)", "( ) , 1 \"s\" true None", [8, 9]),
            ("((u8, u8), [u8; 2])", "( ) , 1", [11, 13]),
            ("BTreeMap<String, Option<u8>>", "{ } ( ) , : 1 \"k\" \"l\" None", [8, 9]),
            ("BTreeMap<u8, String>", "{ } , : 1 2 \"s\" None", [8, 9]),
            ("Option<(u8, u8)>", "( ) , 1 None true", [8, 9]),
            ("Duration", "{ } , : 1 1000000001 -1 \"secs\" \"nanos\" \"x\"", [8, 9]),
            ("Empty", "( ) { } , : 1 x None", [7, 8]),
            ("UnitSt", "( ) { } , : 1 x UnitSt None", [7, 8]),
            ("Vec<()>", "[ ] , ( ) 1", [8, 10]),
            ("Hashes", "( ) [ ] , : 1 2 b k { } \"s\"", [6, 7]),
            ("LinkedList<Vec<u8>>", "[ ] , 1 (", [8, 10]),
            ("Wrap", "( ) [ ] , : 1 P T V x y", [6, 8]),
        ],
    }
}

pub fn tries(m: Mode, fl: Flavor, th: bool) -> Vec<Task> {
    let mut out = vec![];
    let cs = if fl == Flavor::Json { json_tries() } else { ron_tries() };
    for c in cs {
        let o = &by_name(&[c.ty])[0];
        let abc = c.abc.chars().map(|c| c.to_string()).collect();
        out.push(trie_task(
            m,
            fl,
            o,
            format!("characters as {} behind {:?} of {:?}", c.ty, c.pre, c.abc),
            c.pre.into(),
            c.post.into(),
            abc,
            c.depth[th as usize],
        ));
    }
    for (ty, abc, depth) in token_tries(fl) {
        let o = &by_name(&[ty])[0];
        // two spaces, so that an error at a token leaves text unread
        let abc = abc.split(' ').map(|s| format!("{s}  ")).collect();
        out.push(trie_task(m, fl, o, format!("tokens as {ty}"), String::new(), String::new(), abc, depth[th as usize]));
    }
    out
}

// ---------------------------------------------------------------- spellings

fn spellings(m: Mode, fl: Flavor, th: bool) -> Vec<Task> {
    let mut out = vec![];
    for o in all3() {
        let p = o.clone();
        out.push(task(format!("spellings of {}", o.name), 2, 12, move |ctx| {
            let b = ctx.budget();
            // the value takes no deviations of its own but in the thorough tier
            if !th {
                ctx.set_budget(b - 1);
            }
            let v = Gen::new(if th { 3 } else { 2 }).gen(ctx, &p.schema);
            let used = b - ctx.budget() - !th as usize;
            let n = tokens(&p.schema, &v, fl, &mut Plain).len();
            if n > 150 {
                return;
            }
            let total = if n <= if th { 40 } else { 14 } { 2 } else { 1 };
            ctx.set_budget(total - used.min(total));
            let t = tokens(&p.schema, &v, fl, ctx);
            let text = join(&t, ctx);
            ctx.sample(|| format!("{}: {:?} spelled {}", p.name, v, text));
            // the reference has to agree with itself
            let (_, want) = verdict(&p.schema, &text, fl);
            match want {
                Ok(w) if w == v => {}
                Err(Bad::Gray(_)) => return,
                r => panic!("reference reads {text:?} as {r:?}, not {v:?}"),
            }
            look(ctx, m, fl, &p, &text);
        }));
    }
    out
}

/// Long flat input.
fn floods(m: Mode, fl: Flavor) -> Vec<Task> {
    let n = 1_000_000;
    let rep = |s: &str| s.repeat(n);
    let mut v: Vec<(&str, String)> = vec![
        ("Vec<u8>", format!("[{}1]", rep("1,"))),
        ("Vec<u8>", format!("[{}", rep("1,"))),
        ("Vec<u8>", rep("[")),
        ("Vec<u8>", rep(",")),
        ("Vec<u8>", rep("1")),
        ("Vec<u8>", rep("/**/")),
        ("Vec<u8>", rep("//\n")),
        ("Vec<u8>", rep("/*\n*")),
        ("Vec<u8>", format!("[{}]", rep("/**/1//\n,"))),
        ("Vec<u8>", rep(" ")),
        ("Vec<u8>", rep("\n")),
        ("Vec<u8>", rep("-")),
        ("f64", rep("0")),
        ("f64", format!("0.{}1", rep("0"))),
        ("f64", format!("1e{}", rep("0"))),
        ("f64", format!("1e{}", rep("9"))),
        ("f64", rep("1.")),
        ("u64", rep("0")),
        ("u64", rep("9")),
        ("i64", format!("-{}", rep("9"))),
        ("String", format!("\"{}\"", rep("a"))),
        ("String", rep("a")),
        ("String", format!("\"{}", rep("a"))),
        ("String", format!("\"{}\"", rep("\\n"))),
        ("String", format!("\"{}\"", rep("\\u0041"))),
        ("String", format!("\"{}\"", rep("\\ud83d\\ude00"))),
        ("String", format!("\"{}\"", rep("😀"))),
        ("String", format!("\"{}", rep("\\ud83d"))),
        ("LinkedList<i16>", format!("[{}1]", rep("-1,"))),
        ("HashSet<u8>", format!("[{}1]", rep("1,"))),
        ("BTreeSet<u8>", format!("[{}1]", rep("1,"))),
        ("BTreeMap<String, u32>", format!("{{{}\"a\":1}}", rep("\"a\":1,"))),
        ("HashMap<u16, bool>", format!("{{{}1:true}}", rep("1:true,"))),
        ("Vec<String>", format!("[{}\"\"]", rep("\"a\","))),
        ("Vec<Vec<u8>>", format!("[{}[]]", rep("[1],"))),
    ];
    if fl == Flavor::Json {
        v.extend([
            ("Vec<Pt>", format!("[{}{{\"x\":1,\"y\":1}}]", rep("{\"x\":1,\"y\":1},"))),
            ("Pt", format!("{{{}\"x\":1,\"y\":1}}", rep("\"q\":1,"))),
            ("Pt", format!("{{{}\"x\":1,\"y\":1}}", rep("\"x\":1,"))),
            ("Pt", format!("{{\"q\":[{}1],\"x\":1,\"y\":1}}", rep("1,"))),
            ("Pt", format!("{{\"q\":[{}[]],\"x\":1,\"y\":1}}", rep("[],"))),
            ("Pt", format!("{{\"q\":[{}{{}}],\"x\":1,\"y\":1}}", rep("{},"))),
            ("Pt", format!("{{\"q\":{{{}\"r\":1}},\"x\":1,\"y\":1}}", rep("\"q\":{\"r\":[1]},"))),
            ("Pt", format!("{{\"q\":\"{}\",\"x\":1,\"y\":1}}", rep("a]}"))),
            ("Pt", format!("{{\"q\":{}", rep("[],"))),
            ("Pt", format!("{{\"q\":{}", rep("]"))),
            ("Pt", format!("{{\"q\":{}", rep("1 "))),
            ("Pt", format!("{{\"q\":[{}", rep("1:"))),
            ("Pt", format!("{{\"{}\":1,\"x\":1,\"y\":1}}", rep("key"))),
            ("Vec<E>", format!("[{}\"A\"]", rep("\"A\",{\"B\":[1]},{\"D\":{\"x\":1}},"))),
            ("Vec<()>", format!("[{}null]", rep("null,"))),
            ("Vec<Option<i32>>", format!("[{}1]", rep("null,1,"))),
        ]);
    } else {
        v.extend([
            ("Vec<Pt>", format!("[{}(x:1,y:1)]", rep("(x:1,y:1),"))),
            ("Pt", format!("({}x:1,y:1)", rep("x:1,"))),
            ("Pt", rep("x")),
            ("Pt", format!("({}", rep("x:1,"))),
            ("Vec<E>", format!("[{}A]", rep("A,B(1),D(x:1),"))),
            ("Vec<()>", format!("[{}()]", rep("(),"))),
            ("Vec<Option<i32>>", format!("[{}1]", rep("None,1,"))),
        ]);
    }
    v.into_iter()
        .enumerate()
        .map(|(n, (ty, text))| {
            let o = by_name(&[ty]).remove(0);
            task(format!("flood {n} as {ty}"), 0, 0, move |ctx| {
                ctx.sample(|| format!("{} from {} bytes starting {:?}", o.name, text.len(), text.chars().take(12).collect::<String>()));
                // a little less and a little more than the whole
                look(ctx, m, fl, &o, &text);
                let cut = text.char_indices().last().map_or(0, |c| c.0);
                look(ctx, m, fl, &o, &text[..cut]);
            })
        })
        .collect()
}

/// Types whose texts are mutated: all but a few large ones.
fn mutated() -> Vec<Ops> {
    all3().into_iter().filter(|o| !matches!(&o.name[..], "Big" | "Gn<Vec<E>, Option<u8>>")).collect()
}

pub fn tasks(m: Mode, fl: Flavor, th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = mutated().iter().map(|o| mutants(m, fl, o, th)).collect();
    v.extend(tries(m, fl, th));
    v.extend(super::pumps::texts(m, fl, th));
    if m == Mode::Accept {
        v.extend(spellings(m, fl, th));
    }
    if m == Mode::Total {
        v.extend(floods(m, fl));
    }
    v
}

fn bounds(m: Mode, fl: Flavor, th: bool) -> String {
    let mut s = format!(
        "per type: every mutant at {} token edit(s) (deletion, doubling, swap, truncation, insertion or replacement by ~90 tokens) or one character edit ({} characters) of the plain texts of its values with at most one deviation; {} character tries of depth up to {} behind {} prefixes and {} token tries of depth up to {}, cut only where the decoder failed before the end of the text",
        if th { "1 or, for texts of up to 9 tokens, 2" } else { "1" },
        CHARS.len(),
        if fl == Flavor::Json { json_tries().len() } else { ron_tries().len() },
        if th { 8 } else { 7 },
        if fl == Flavor::Json { "15" } else { "13" },
        token_tries(fl).len(),
        if th { 13 } else { 11 },
    );
    s += &format!("; {} documents with one part (gap, comment, string, number, item, field, nesting) repeated n times for {} numbers n up to {}, each whole and with a fault at 5 to 7 places", super::pumps::texts(m, fl, th).len(), super::pumps::counts(th).len(), super::pumps::counts(th).last().unwrap());
    if m == Mode::Accept {
        s += "; every spelling with up to 2 deviations from the plain one (13 kinds of space and comments in every gap, escapes, number notations, key orders, absent keys, unknown keys and values, trailing commas)";
    }
    if m == Mode::Total {
        s += "; 40 to 50 kinds of flat input of 100000 repetitions on a stack of 1 MiB";
    }
    s
}

fn text_plan(m: Mode, fl: Flavor, th: bool, rule: &str) -> Plan {
    let mut p = Plan::new(rule, bounds(m, fl, th), tasks(m, fl, th));
    if m == Mode::Total {
        p.stack = 1 << 20;
        p.hang_ms = 10_000;
    }
    p
}
const ACCEPT: &str = "every document of the bounded space which denotes a value, by an independent decoder of the format, is decoded by the crate to that value; a state is a distinct (type, text)";
const REJECT: &str = "every document of the bounded space which by an independent decoder denotes no value of the type is rejected by the crate, and what the crate accepts has the value it denotes; a state is a distinct (type, text)";
const TOTAL: &str = "the decoder runs on every text of the bounded space; it must return without panic or stack overflow, within 32 KiB + 1 KiB per input byte of live memory and within the time limit of one call; a state is a distinct (type, text)";

pub fn c07(th: bool) -> Plan {
    text_plan(Mode::Accept, Flavor::Json, th, ACCEPT)
}
pub fn c08(th: bool) -> Plan {
    text_plan(Mode::Total, Flavor::Json, th, TOTAL)
}
pub fn c09(th: bool) -> Plan {
    text_plan(Mode::Reject, Flavor::Json, th, REJECT)
}
pub fn c11(th: bool) -> Plan {
    text_plan(Mode::Accept, Flavor::Ron, th, ACCEPT)
}
pub fn c12(th: bool) -> Plan {
    text_plan(Mode::Total, Flavor::Ron, th, TOTAL)
}
pub fn c13(th: bool) -> Plan {
    text_plan(Mode::Reject, Flavor::Ron, th, REJECT)
}

