//! TOML: C14, C15 and the TOML part of C19.

use crate::looks::line_col;
use super::*;
use crate::engine::*;
use crate::tomlref::{parse, same_table, Bad};

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Total,
    Accept,
    Pos,
}

/// Run the parser on a text; whether text behind it could change anything.
pub fn look(ctx: &mut Ctx, m: Mode, text: &str) -> bool {
    if m == Mode::Pos {
        return errors::toml_pos(ctx, text);
    }
    ctx.state(&[text.as_bytes()]);
    ctx.trace();
    let mem = if m == Mode::Total { (32 << 10) + 1024 * text.len() } else { usize::MAX };
    let r = match ctx.guard(&[text.as_bytes()], mem, || nanoserde::TomlParser::parse(text)) {
        Ok(r) => r,
        Err(p) => {
            ctx.violation(text, &format!("TOML {}: {p}", show(&text)));
            return false;
        }
    };
    let more = match &r {
        Ok(_) => true,
        Err(e) => (e.line, e.col) == line_col(text),
    };
    match m {
        Mode::Total => {
            if let (Ok(v), Err(Bad::Reject(at, why))) = (&r, parse(text)) {
                ctx.violation(text, &format!("TOML {} is read as {} although character {at} is wrong: {why}", show(&text), show(v)))
            }
        }
        _ => {
            if let Ok(t) = parse(text) {
                ctx.count("documents_compared", 1);
                if !matches!(&r, Ok(v) if same_table(&t, v)) {
                    ctx.violation(text, &format!("TOML {} is read as {} although it denotes {}", show(&text), show(&r), show(&t)))
                }
            }
        }
    }
    more
}

fn grow(ctx: &mut Ctx, m: Mode, text: &mut String, posts: &[&str], abc: &[&str], left: usize) {
    if ctx.stopped() {
        return;
    }
    let more = look(ctx, m, text);
    if !more {
        return;
    }
    let n = text.len();
    for post in posts {
        text.push_str(post);
        look(ctx, m, text);
        text.truncate(n);
    }
    if left == 0 {
        return;
    }
    for c in abc {
        ctx.stats.transitions += 1;
        text.push_str(c);
        grow(ctx, m, text, posts, abc, left - 1);
        text.truncate(n);
    }
}

fn trie(m: Mode, pre: &'static str, posts: &'static [&'static str], abc: Vec<String>, depth: usize, name: String) -> Task {
    task(name, 0, 2, move |ctx| {
        let a: Vec<&str> = abc.iter().map(|s| &s[..]).collect();
        let mut text = String::from(pre);
        ctx.sample(|| format!("every continuation of {pre:?} by up to {depth} of {a:?}, closed by {posts:?}"));
        if ctx.pick(2) == 0 {
            grow(ctx, m, &mut text, posts, &a, depth.min(2));
            return;
        }
        let i = ctx.pick(a.len());
        let j = ctx.pick(a.len());
        text.push_str(a[i]);
        let more = look(ctx, m, &text);
        if !more {
            return;
        }
        text.push_str(a[j]);
        if depth > 2 {
            grow(ctx, m, &mut text, posts, &a, depth - 2);
        }
    })
}

fn tries(m: Mode, th: bool) -> Vec<Task> {
    // prefix, ends, characters, depth quick and thorough
    type T = (&'static str, &'static [&'static str], &'static str, [usize; 2]);
    let chars: &[T] = &[
        ("", &[], "a=[]\"\"\n 1.#,\\-_:+{}'é\r\t\0", [4, 5]),
        ("", &[" = 1\n"], "a1.-_\"\\+T:eé#", [5, 6]),
        ("[", &["]\na=1", "]]\na=1"], "a1.-_\"\\[] \n", [5, 6]),
        ("[[", &["]]\na=1"], "a1.\"[] \n#", [5, 6]),
        ("[[a]]\nb=1\n", &["=1"], "[]ab.\n=1\"", [6, 7]),
        ("a=1\n[", &["]\nb=2"], "[]a.b\n=1", [6, 7]),
        ("a = ", &["", "\nb=1"], "0123_.-+eE#\n ", [5, 6]),
        ("a = ", &["\nb=1"], "truefalsin+-\n", [6, 7]),
        ("a = ", &[" "], "inf+-nan_ ", [6, 8]),
        ("a = -", &[",", " "], "infa0_.- ", [6, 7]),
        ("a = [", &["]"], "1,[]\"\n#- ", [7, 8]),
        ("a = [", &["]", ",1]"], "true,nif#\n", [6, 7]),
        ("a = \"", &["\"", "\"\nb=1"], "\\\"a#é\n\tbtnfru'", [5, 6]),
        ("a = \"\\u", &["\"", "\" # x"], "0dD8cCfF1gG\"", [5, 6]),
        ("a = \"\\U", &["\""], "0dD81\"", [8, 9]),
        ("a = \"\\U0010", &["\""], "0dDfF8g\"", [5, 6]),
        ("a = \"\"\"", &["\"\"\"", "\"\"\"\nb=1"], "\"\\a\n\r u", [7, 8]),
        ("a = \"\"\"x", &["\"\"\"", "\"\""], "\"\\ \n\tb", [7, 8]),
        ("a = \"\"", &["", "\nb=2"], "\"a\n#,\\", [7, 8]),
        ("[t]\n\"", &["\" = 2"], "\\\"au0nt=]\n", [5, 6]),
        ("a = 19", &["", "\nb=1", ",", "]"], "79-0:T.Z ", [6, 7]),
        ("a = 1979-05-2", &["", " "], "7T0:-.Z 3", [6, 7]),
        ("# c", &["", "\na=1"], "\n#=a\"é[\r\t1", [6, 7]),
        ("a=1#", &["", "\nb=1"], "\n#=b\r 1\"", [6, 7]),
        ("[a", &["]\nb=1", "]]\nb=1"], "]#\n b=1\r", [6, 7]),
    ];
    let mut v: Vec<Task> = chars
        .iter()
        .map(|(pre, posts, abc, d)| {
            let a = abc.chars().map(|c| c.to_string()).collect();
            trie(m, pre, posts, a, d[th as usize], format!("characters behind {pre:?} of {abc:?}"))
        })
        .collect();
    // a NUL separates the tokens here
    let toks: &[(&'static str, &'static [&'static str], &str, [usize; 2])] = &[
        ("", &[], "a\0=\0[\0]\0,\0\"s\"\01\0\n\0# c\n\0true\02.5\01979-05-27\0", [5, 6]),
        ("", &["= 1"], "a\0=\0[\0]\01\0\n\0b\0", [7, 8]),
        ("a = [", &["]"], "[\0]\0,\01\0\"s\"\0\n\0#,]\n\0", [7, 8]),
        ("", &[], "[a]\n\0[[a]]\n\0[[b]]\n\0[a.b]\n\0a = 1\n\0b = 2\n\0a.b = 3\n\0[b]\n\0", [5, 7]),
        ("a = ", &["", "]"], "\"\"\0\"\"\"\0\"\0\\\0\n\0x\0", [6, 8]),
    ];
    for (pre, posts, abc, d) in toks {
        let a = abc.split('\0').filter(|s| !s.is_empty()).map(|s| if s.contains('\n') { s.to_string() } else { format!("{s} ") }).collect();
        v.push(trie(m, pre, posts, a, d[th as usize], format!("tokens behind {pre:?} of {abc:?}")));
    }
    v
}

// --------------------------------------------------------------- documents

const KEYS: &[&str] = &[
    "a", "key", "bare_key", "bare-key", "1234", "a.b", "a.b.c", "\"q\"", "\"\"", "\"a b\"", "\"a.b\"", "\"x\\\"y\"", "\"\\u00e9\\n\"",
    "\"127.0.0.1\"", "\"#\"", "\"=\"", "\"]\"", "true", "false", "inf", "nan", "-inf", "1e5", "0x1f", "1a", "1_2", "007", "-1", "1.5", "3.14.15", "-a", "_", "__", "--",
    "1979-05-27", "1979-x", "12-", "é", "ʎǝʞ", "日本語", "1é", "a1", "E", "e1", "n", "i", "na", "in", "t", "nand", "info", "trueish", "infinity", "99999999999999999999", "1979-05-27T07",
    "-nan", "-1.5", "1.a", "a.1", "a.1.b", "1.2.b", "00.1", "-12-1", "key.true", "u8", "T", "12T", "12-01T", "1_", "1__2", "-_", "-.a", "x-y.z_1",
];

const VALUES: &[&str] = &[
    "0", "1", "-1", "+1", "+0", "-0", "7", "10", "1_000", "1_2_3_4", "-1_0", "255", "4294967296", "9007199254740993", "9223372036854775807", "-9223372036854775808",
    "0.0", "1.5", "-1.5", "+1.5", "3.1415", "-0.01", "1_0.2_5", "0.1", "123456789.123456789", "-0.0", "0.000000000000000000001", "1.7976931348623157",
    "9007199254740993.0", "179769313486231570000000000000000000000.5",
    "true", "false", "inf", "+inf", "-inf", "nan", "+nan", "-nan",
    "1979-05-27", "1979-05-27T07:32:00", "0001-01-01", "9999-12-31T23:59:59",
    "\"\"", "\"a\"", "\"a b\"", "\"#\"", "\"=\"", "\"[x]\"", "\"\\\"\"", "\"\\\\\"", "\"\\b\\t\\n\\f\\r\"", "\"\\u0041\"", "\"\\u00E9\"", "\"\\U0001F600\"", "\"\\U00000041b\"",
    "\"é日😀\"", "\"'\"", "\"\t\"", "\"true\"", "\"1\"", "\"\\\\\\\"\"", "\"\\u000\\u0000\"", "\"\\uD7FF\\uE000\"",
    "\"\"\"\"\"\"", "\"\"\"a\"\"\"", "\"\"\"\na\"\"\"", "\"\"\"\r\na\r\nb\"\"\"", "\"\"\"\n\na\n\"\"\"", "\"\"\"a\nb\"\"\"", "\"\"\"a\"b\"\"\"", "\"\"\"a\"\"b\"\"\"", "\"\"\"a\"\"\"\"", "\"\"\"a\"\"\"\"\"",
    "\"\"\"\"a\"\"\"", "\"\"\"\"\"a\"\"\"", "\"\"\"a\\\n   b\"\"\"", "\"\"\"a\\\n\n \t b\\\n\"\"\"", "\"\"\"a\\   \n  b\"\"\"", "\"\"\"\\\"\"\"\"", "\"\"\"\\u0041\\n\"\"\"", "\"\"\"# no comment\n[x]\ny = 1\"\"\"", "\"\"\"\\\r\n a\"\"\"", "\"\"\"\\\\\"\"\"",
    "[]", "[ ]", "[1]", "[1,2]", "[1, 2, ]", "[ 1 , 2 ]", "[\n1,\n2\n]", "[\n  1, # one\n  2 # two\n]", "[1,\n]", "[\r\n1\r\n]", "[\"a\",\"b\"]", "[\"a]\", \"#\"]", "[[1,2],[3]]", "[[],[[]]]", "[[1],[\"a\",[true]]]", "[true,false]", "[inf,-inf]", "[nan]", "[1.5,-2]", "[1979-05-27,1979-05-28]",
    "[# c\n]", "[# ]\n1]", "[1 # ,\n, 2]", "[[\n1 ]\n,[ 2]]", "[\"\"\"a\nb\"\"\", \"c\"]", "[inf]", "[true]", "[-1]", "[\"\"]", "[1,2,3,4,5,6,7,8,9,10,11,12]", "[-0.0]", "[inf,1]", "[nan,true]",
];

/// Lines of documents: distinct enough that any loss or mix-up shows.
const LINES: &[&str] = &[
    "a = 1", "b = \"x\"", "c.d = true", "\"q r\" = [1, 2]", "e = \"\"\"\nm\n\"\"\"", "f = 1979-05-27", "g = inf", "1 = -2.5", "", "# c = 9", "[t]", "[u.v]", "[\"w x\"]",
    "[[z]]", "[[y]]", "[[\"p q\"]]", "[[1]]", "[7]", "  a2 = [\n 1,\n # x\n 2 ]", "[s] # c", "[[z]] # c", "h = false # c", "[true]", "[zz]", "[[n.m]]",
    "[z.z]",
];

fn documents(m: Mode, th: bool) -> Vec<Task> {
    let mut v = vec![];
    let depth = if th { 5 } else { 4 };
    v.push(task(format!("documents of up to {depth} lines"), 0, 3, move |ctx| {
        let mut text = String::new();
        let crlf = ctx.pick(3);
        for _ in 0..depth {
            let k = ctx.pick(LINES.len() + 1);
            if k == LINES.len() {
                break;
            }
            text += LINES[k];
            text += "\n";
        }
        match crlf {
            1 => text = text.replace('\n', "\r\n"),
            2 => {
                text.pop();
            }
            _ => {}
        }
        ctx.sample(|| text.clone());
        look(ctx, m, &text);
    }));
    v.push(task("keys and values", 0, 2, move |ctx| {
        let k = KEYS[ctx.pick(KEYS.len())];
        let x = VALUES[ctx.pick(VALUES.len())];
        let shape = ctx.pick(7);
        let text = match shape {
            0 => format!("{k} = {x}"),
            1 => format!("{k}={x}\nz=1\n"),
            2 => format!("[t]\n{k} = {x} # c\nz = 1"),
            3 => format!("[{k}]\n{k} = {x}\n"),
            4 => format!("[[{k}]]\n{k} = {x}\n[[{k}]]\nz = {x}\n"),
            5 => format!("[[t]]\n[[t]]\n{k} = {x}\n[v]\nz = {x}"),
            _ => format!("\t{k}\t=\t{x}\t\r\nzz = {x}"),
        };
        ctx.sample(|| text.clone());
        look(ctx, m, &text);
    }));
    v.push(task("pairs of values", 0, 2, move |ctx| {
        let x = VALUES[ctx.pick(VALUES.len())];
        let y = VALUES[ctx.pick(VALUES.len())];
        let text = match ctx.pick(7) {
            0 => format!("a = {x}\nb = {y}"),
            1 => format!("a = [{x}, {y}]"),
            2 => format!("a = [{x},{y},]\nb = {x}"),
            3 => format!("a = [{x}# {y}\n,{y} #{x}\n]"),
            4 => format!("a = [[{x}], [[{y}], {x}]]"),
            5 => format!("[[t]]\na = {x}\n[[t]]\na = {y}\n[u]\na = {x}"),
            _ => format!("[[t]]\na = {x}\n[[u]]\na = {y}\n[[t]]\na = {y}"),
        };
        ctx.sample(|| text.clone());
        look(ctx, m, &text);
    }));
    v.push(task("pairs of keys", 0, 2, move |ctx| {
        let k = KEYS[ctx.pick(KEYS.len())];
        let l = KEYS[ctx.pick(KEYS.len())];
        let text = match ctx.pick(6) {
            0 => format!("{k} = 1\n{l} = 2"),
            1 => format!("[{k}]\n{l} = 1\n"),
            2 => format!("[{k}]\na = 1\n[{l}]\na = 2\n"),
            3 => format!("[[{k}]]\n{l} = 1\n[{l}]\n{k} = 2"),
            4 => format!("[[{k}]]\na = 1\n[[{l}]]\na = 2\n[[{k}]]\na = 3"),
            _ => format!("{k} = 1\n[[{l}]]\n{k} = 2\n[[{l}]]\n[ {k} ]\n"),
        };
        ctx.sample(|| text.clone());
        look(ctx, m, &text);
    }));
    // spaces and comments
    let dev = if th { 3 } else { 2 };
    for (n, doc) in BASES.iter().enumerate() {
        v.push(task(format!("spacing of document {n}"), dev, 2, move |ctx| {
            let mut text = String::new();
            for part in doc.split('~') {
                // gaps where only blanks may stand, and where lines may end
                let c = part.chars().next();
                let (gap, rest): (&[&str], &str) = match c {
                    Some('|') => (&["", " ", "\t", " \t "], &part[1..]),
                    Some('/') => (
                        &["\n", "\r\n", " \n", "\n\n", " # c\n", "#\n", "\n# [x]\n", " # é\"\r\n", "\n \t", "\n\t# = 1\n  ", "\n#\n#\n", "\n  # a\n\n  # b\n", "\r\n\r\n"],
                        &part[1..],
                    ),
                    Some('^') => (&["", "\n", "# c\n", " ", "\r\n", "\n# c\n\n", " # ]\n # ,\n\t", "\t", "\n#\r\n"], &part[1..]),
                    _ => (&[""], part),
                };
                text += gap[ctx.dev(gap.len())];
                text += rest;
            }
            ctx.sample(|| text.clone());
            look(ctx, m, &text);
        }));
    }
    v
}

const BASES: &[&str] = &[
    "^~|a~|=~|1~/~|b~|=~|\"s\"~/~|[~|t~|]~/~|c~|=~|true~/",
    "^~|[[~|t~|]]~/~|a~|=~|-1.5~/~|[[~|t~|]]~/~|a~|=~|inf~/~|[u]~/~|b.c~|=~|1979-05-27~/",
    "^~|a~|=~|[~^1~^,~^2~^]~/~|b~|=~|[~^[~^\"x\"~^]~^,~^[~^]~^,~^]~/",
    "^~|\"k\"~|=~|[~^inf~^,~^nan~^,~^true~^,~^1979-05-27~^,~^-1~^,~^+2.5~^]~/~|1~|=~|2~/",
    "^~|a~|=~|\"\"~/~|b~|=~|\"\"\"\nx\"\"\"~/~|[1]~/~|c~|=~|\"\\n\"~/~|[[\"x\"]]~/~|d~|=~|nan~/",
];

/// Documents for mutation.
const DOCS: &[&str] = &[
    "a = 1\nb = \"x\\ny\"\n[t]\nc = true # c\n",
    "[[z]]\na = 1.5\n[[z]]\na = -inf\n[u]\nb = 1979-05-27\n",
    "a = [1, [\"x\", true], []]\n\"q\" = \"\"\"\nm\\\n n\"\"\"\n",
    "a.b = +1_0\n[c.d]\n1 = nan\n\"\\u00e9\" = \"\\U0001F600\"\n",
    "z = 1\n[[y]]\nx = 2\n[z]\n[[y]]\n",
];
const INTRUDERS: &[&str] = &[
    "a", "1", "-1", "1.5", "true", "inf", "-nan", "\"s\"", "\"\"", "\"\"\"m\"\"\"", "\"\"\"", "\"", "\\", "=", "[", "]", "[[", "]]", ",", "\n", "#", "# c\n", ".", "..", "{", "}", "'", "'x'", ":", "+", "-", "_", "1979-05-27",
    "\"\\u12\"", "\"\\ud800\"", "\"\\U00110000\"", "\"\\u12", "\0", "\r", "é", "€", "@", "&", "1e5", "0x1", "99999999999999999999", "-99999999999999999999", "1_", "1.", ".5", "nul", "fals", "/", "//", "{}", "[]", "[1", "a = 1", "[t]", "[[t]]", "[z]", "[[z]]", "[[a]]", "+inf", "++1", "-in", "-na", "inx",
];
const CHARS: &str = "a1=[]\".,#\\-+_ \n\r\t\0é{'u";

/// The tokens of a well-formed document, spaces included.
fn pieces(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < cs.len() {
        let a = i;
        match cs[i] {
            '"' => {
                let tri = cs[i..].starts_with(&['"', '"', '"']);
                i += if tri { 3 } else { 1 };
                while i < cs.len() && !(cs[i] == '"' && (!tri || cs[i..].starts_with(&['"', '"', '"']))) {
                    i += 1 + (cs[i] == '\\') as usize;
                }
                i += if tri { 3 } else { 1 };
            }
            '=' | '[' | ']' | ',' | '\n' | ' ' => i += 1,
            '#' => {
                while i < cs.len() && cs[i] != '\n' {
                    i += 1
                }
            }
            _ => {
                while i < cs.len() && !"=[],\n #\"".contains(cs[i]) {
                    i += 1
                }
            }
        }
        v.push(cs[a..i.min(cs.len())].iter().collect());
    }
    v
}

fn mutants(m: Mode, th: bool) -> Vec<Task> {
    let mut v = vec![];
    for (n, doc) in DOCS.iter().enumerate() {
        v.push(task(format!("mutants of document {n}"), 0, 2, move |ctx| {
            let t = pieces(doc);
            assert_eq!(t.concat(), *doc);
            let edit = |ctx: &mut Ctx, t: &[String]| -> Vec<String> {
                let i = ctx.pick(t.len() + 1);
                let mut u = t.to_vec();
                match ctx.pick(4) {
                    0 if i < t.len() => {
                        u.remove(i);
                    }
                    1 if i + 1 < t.len() => u.swap(i, i + 1),
                    2 if i < t.len() => u[i] = INTRUDERS[ctx.pick(INTRUDERS.len())].into(),
                    3 => u.insert(i, INTRUDERS[ctx.pick(INTRUDERS.len())].into()),
                    _ => {}
                }
                u
            };
            let mut u = edit(ctx, &t);
            if th {
                u = edit(ctx, &u);
            }
            let text = u.concat();
            ctx.sample(|| text.clone());
            look(ctx, m, &text);
        }));
        v.push(task(format!("character mutants of document {n}"), 0, 1, move |ctx| {
            let cs: Vec<char> = doc.chars().collect();
            let abc: Vec<char> = CHARS.chars().collect();
            let edit = |ctx: &mut Ctx, cs: &[char]| -> Vec<char> {
                let i = ctx.pick(cs.len());
                let mut u = cs.to_vec();
                match ctx.pick(4) {
                    0 => {
                        u.remove(i);
                    }
                    1 => u[i] = abc[ctx.pick(abc.len())],
                    2 => u.insert(i, abc[ctx.pick(abc.len())]),
                    _ => u.truncate(i + 1),
                }
                u
            };
            let mut u = edit(ctx, &cs);
            if !u.is_empty() {
                u = edit(ctx, &u);
            }
            let text: String = u.into_iter().collect();
            ctx.sample(|| text.clone());
            look(ctx, m, &text);
        }));
    }
    v
}

fn floods(m: Mode) -> Vec<Task> {
    let n = 1_000_000;
    let rep = |s: &str| s.repeat(n);
    // a table is much larger than its text
    let t = n / 5;
    let few = |s: &str| s.repeat(t);
    let many = |f: &dyn Fn(usize) -> String, n: usize| (0..n).map(f).collect::<String>();
    let v = vec![
        rep("a"),
        format!("{}=1", rep("a")),
        format!("{}=1", rep("a.")),
        format!("a{}=1", rep(".a")),
        format!("1{}=1", rep(".a")),
        format!("{}=1", rep("1.")),
        format!("{}=1", rep("1-")),
        format!("{}=1", rep("-")),
        format!("a={}", rep("1")),
        format!("a={}", rep("_")),
        format!("a=1{}", rep("_1")),
        format!("a=-{}", rep("9")),
        format!("a=0.{}", rep("1")),
        format!("a=1-{}", rep("1:")),
        format!("a=\"{}\"", rep("x")),
        format!("a=\"{}", rep("x")),
        format!("a=\"{}\"", rep("\\n")),
        format!("a=\"{}\"", rep("\\u0041")),
        format!("a=\"{}\"", rep("😀")),
        format!("a=\"\"\"{}\"\"\"", rep("x\n")),
        format!("a=\"\"\"{}\"\"\"", rep("\"x")),
        format!("a=\"\"\"{}\"\"\"", rep("\\\n ")),
        format!("a=\"\"\"{}", rep("\"\"x")),
        rep("\""),
        format!("a={}", rep("\"")),
        rep("\n"),
        rep(" "),
        rep("#"),
        rep("#\n"),
        rep("# c\n\n"),
        rep("#\r\n"),
        format!("a=[{}]", rep("1,")),
        format!("a=[{}]", rep("1, # c\n")),
        format!("a=[{}]", rep("[],")),
        format!("a=[{}", rep("1,")),
        format!("a=[{}", rep(",")),
        format!("a=[{}]", rep("\"x\",")),
        format!("a=[{}]", rep("true\n,")),
        format!("a={}", rep("inf")),
        rep("a=1\n"),
        few("[a]\n"),
        few("[a]\nb=1\n"),
        few("[[a]]\n"),
        few("[[a]]\nb=1\n"),
        few("[[a]]\n[b]\n"),
        few("[[a]]\n[a.b]\nc=1\n"),
        format!("[{}]", rep("a.")),
        rep("="),
        rep("]"),
        rep("-"),
        rep("a=-1\n"),
        many(&|i| format!("k{i}={i}\n"), t),
        many(&|i| format!("[t{i}]\nk={i}\n"), t),
        many(&|i| format!("[[t{}]]\nk={i}\n", i % 1000), t),
    ];
    v.into_iter()
        .enumerate()
        .map(|(n, text)| {
            task(format!("flood {n}"), 0, 0, move |ctx| {
                ctx.sample(|| format!("{} bytes starting {:?}", text.len(), text.chars().take(12).collect::<String>()));
                look(ctx, m, &text);
                let cut = text.char_indices().last().map_or(0, |c| c.0);
                look(ctx, m, &text[..cut]);
            })
        })
        .collect()
}

fn pumps(m: Mode, th: bool) -> Vec<Task> {
    let ns = super::pumps::counts(th);
    super::pumps::toml()
        .into_iter()
        .enumerate()
        .map(|(k, p)| {
            let ns = ns.clone();
            task(format!("pump {k}"), 0, 1, move |ctx| {
                let n = ns[ctx.pick(ns.len())];
                if n > p.max {
                    return;
                }
                ctx.sample(|| format!("{:?}, {n} x {:?}, {:?}, {:?}", p.pre, p.unit, p.mid, p.post));
                for t in p.texts(n) {
                    look(ctx, m, &t);
                }
            })
        })
        .collect()
}

pub fn tasks(m: Mode, th: bool) -> Vec<Task> {
    let mut v = tries(m, th);
    v.extend(mutants(m, th));
    v.extend(pumps(m, th));
    if m != Mode::Pos {
        v.extend(documents(m, th));
    }
    if m == Mode::Total {
        v.extend(floods(m));
    }
    v
}

fn bounds(m: Mode, th: bool) -> String {
    let mut s = format!(
        "all continuations of 30 prefixes by up to {} characters or tokens out of alphabets of 6 to 26, cut only where the parser failed before the end of the text; every mutant at {} token edit(s) ({} tokens) or 2 character edits of {} documents; every document of up to {} of {} lines with LF, CRLF or no last line end; {} keys x {} values in 7 contexts, all pairs of values and of keys; every spacing of {} documents at up to {} deviations",
        if th { "5 to 9" } else { "4 to 8" },
        if th { 2 } else { 1 },
        INTRUDERS.len(),
        DOCS.len(),
        if th { 5 } else { 4 },
        LINES.len(),
        KEYS.len(),
        VALUES.len(),
        BASES.len(),
        if th { 3 } else { 2 },
    );
    s += &format!("; {} documents with one part repeated n times for {} numbers n up to {}, each whole and with a fault at 5 to 7 places", super::pumps::toml().len(), super::pumps::counts(th).len(), super::pumps::counts(th).last().unwrap());
    if m == Mode::Total {
        s += "; 54 kinds of flat input of 100000 repetitions on a stack of 1 MiB";
    }
    s
}

pub fn c14(th: bool) -> Plan {
    Plan::new(
        "every document of the bounded space within the supported subset is parsed by the crate to the map which an independent parser of that subset gives; a state is a distinct document",
        bounds(Mode::Accept, th),
        tasks(Mode::Accept, th),
    )
}
pub fn c15(th: bool) -> Plan {
    let mut p = Plan::new(
        "the parser runs on every text of the bounded space; it must return without panic or stack overflow, within 32 KiB + 1 KiB per input byte of live memory and within the time limit of one call, and return an error where an independent parser finds one of the faults of the property; a state is a distinct text",
        bounds(Mode::Total, th),
        tasks(Mode::Total, th),
    );
    p.stack = 1 << 20;
    p.hang_ms = 10_000;
    p
}
