"""C17: declarations of every shape."""
import itertools
from rust import F, V, T

# field types; the letters are only used to name things
POOL = ["u8", "String", "Option<u8>", "Vec<u16>", "bool", "(u8, String)", "[u8; 2]", "f32", "i64", "Inner",
        "BTreeMap<String, u8>", "Option<Inner>", "Box<u32>", "BTreeSet<u16>", "Option<String>", "f64", "Duration"]

# names of fields which might clash with names in generated code
FIELDS = """s d o i t r f v x k n m e l c b a z _x __x _s _d _o _i _t f0 f1 f2 _0 tok state out len proxy var val value key keys id u
ident data name body inner self_ this other index last first result res ret err error msg line col
strbuf identbuf numbuf cur text str string char bool u8 u16 u32 u64 i8 i32 f32 usize
nanoserde core std alloc default unwrap map ok_or none some ok null de_json ser_json de_ron ser_ron de_bin ser_bin
curly_open whole_field field label unknown lit variant x1 longer_name_with_many_parts aB CamelCase UPPER a1b2 Option Vec String None_
union macro_rules auto raw dyn_ type_ struct_ first_field_was_serialized field_name
inf nan true_ false_ some_none""".split()

VARIANTS = """A Some Ok Err None_ String Vec Option Result Default Self_ lower snake_case UPPER A1 _A Str Int Bool Char Null
Curly Unit Tuple Struct Enum Error DeJson SerJson DeBin u8_ Box f0 s d o i r t x id variant unknown proxy Int32 V Eof Object""".split()

NAMES = """A T D O I R E F Ok_ Error Data Value lower_case UPPER Under_Score A1 _Under Proxy Inner2 State Token Chars Str String_ Result_
Struct Enum Unit Self_ Map Set Vec2 Option2 s d o i r""".split()

KINDS = {
    "u": lambda n: V(n, "unit"),
    "p": lambda n: V(n, "tuple", []),
    "b": lambda n: V(n, "named", []),
    "1": lambda n: V(n, "tuple", [F("", "u8", vis="")]),
    "2": lambda n: V(n, "tuple", [F("", "u16", vis=""), F("", "String", vis="")]),
    "3": lambda n: V(n, "tuple", [F("", "bool", vis=""), F("", "Option<u8>", vis=""), F("", "Vec<u8>", vis="")]),
    "s": lambda n: V(n, "named", [F("x", "u8", vis="")]),
    "t": lambda n: V(n, "named", [F("x", "Option<u8>", vis=""), F("y", "String", vis="")]),
    "o": lambda n: V(n, "named", [F("w", "u8", vis=""), F("x", "Option<Inner>", vis=""), F("y", "bool", vis="")]),
}


def named(key, tys, **k):
    return T(key, "named", [F("abcdefghijklmnopqrstuvwxyz"[i] if len(tys) < 27 else f"f{i}", t) for i, t in enumerate(tys)], **k)


def tup(key, tys, **k):
    return T(key, "tuple", [F("", t) for t in tys], **k)


def enum(key, vs, **k):
    return T(key, "enum", variants=vs, **k)


def kinds(key, seq, **k):
    return enum(key, [KINDS[c](f"V{i}") for i, c in enumerate(seq)], **k)


def sequences(th):
    """Structs of all sequences of field types, enums of all sequences of variant kinds."""
    out = []
    few = POOL[:6] if th else POOL[:4]
    for n in range(4):
        pool = POOL if n <= 1 else POOL[:12] if n == 2 and th else POOL[:7] if n == 2 else few
        for tys in itertools.product(pool, repeat=n):
            i = ",".join(tys)
            out.append(named(f"struct{{{i}}}", tys))
            if n <= 1 or th or n == 2 and all(t in POOL[:5] for t in tys):
                out.append(tup(f"struct({i})", tys))
    for n in range(1, 5 if th else 4):
        ks = "upb123sto" if n <= 2 else "upb12st" if th and n == 3 else "u2t" if n == 4 else "ub2t"
        for seq in itertools.product(ks, repeat=n):
            out.append(kinds("enum " + "".join(seq), seq))
    # long ones
    for n in [4, 5, 6, 7, 8, 10, 12, 13, 16, 17, 20, 26, 32, 33, 40, 64, 100] + ([128, 200, 257] if th else []):
        tys = [POOL[i % 7] for i in range(n)]
        out.append(named(f"struct of {n}", tys))
        out.append(tup(f"tuple struct of {n}", tys[: min(n, 40)] if n > 40 else tys) if n <= 40 else tup(f"tuple struct of {n}", tys))
        out.append(enum(f"enum of {n} units", [V(f"V{i}") for i in range(n)]))
        out.append(enum(f"enum of {n} kinds", [KINDS["u1t2spb3o"[i % 9]](f"V{i}") for i in range(n)]))
        if n <= 40:
            out.append(enum(f"variant of {n}", [V("A", "tuple", [F("", t, vis="") for t in tys]), V("B", "named", [F(f"f{i}", t, vis="") for i, t in enumerate(tys)])]))
    for n in (255, 256, 257, 300):
        out.append(enum(f"enum of {n}", [KINDS["u" if i < n - 3 else "1t2"[n - 1 - i]](f"V{i}") for i in range(n)]))
    return out


def names(th):
    out = []
    for n in FIELDS:
        out.append(T(f"field {n}", "named", [F(n, "u8")]))
        out.append(T(f"field {n} among others", "named", [F("aa", "Option<u8>"), F(n, "String"), F("zz", "u8")]))
        out.append(enum(f"variant field {n}", [V("A"), V("B", "named", [F("aa", "u16", vis=""), F(n, "Option<u8>", vis=""), F("zz", "u8", vis="")])]))
    pairs = ["s d o i t r f0 _s _x x tok proxy val state default unwrap".split()] if not th else [FIELDS[:32]]
    for a, b in itertools.permutations(pairs[0], 2):
        if a < b or th:
            out.append(T(f"fields {a} {b}", "named", [F(a, "u8"), F(b, "String")]))
            out.append(enum(f"variant fields {a} {b}", [V("B", "named", [F(a, "u8", vis=""), F(b, "Option<String>", vis="")])]))
    for n in VARIANTS:
        out.append(enum(f"variant {n}", [V("First"), KINDS["u"](n), KINDS["2"]("Last")]))
        out.append(enum(f"tuple variant {n}", [V("First"), KINDS["2"](n), KINDS["u"]("Last")]))
        out.append(enum(f"struct variant {n}", [KINDS["t"]("First"), KINDS["t"](n)]))
    for n in NAMES:
        out.append(named(f"struct named {n}", ["u8", "Option<u8>"], name=n))
        if n not in ("s", "d", "o", "i", "r"):
            # those are parameters of the methods of the traits, which no such struct can shadow
            out.append(tup(f"tuple struct named {n}", ["u8", "String"], name=n))
            out.append(T(f"unit struct named {n}", "unit", name=n))
        out.append(enum(f"enum named {n}", [KINDS[c](f"V{i}") for i, c in enumerate("u2t")], name=n))
    # a variant or field called like its type
    out.append(enum("enum and variant A", [KINDS["u"]("A"), KINDS["2"]("B")]))
    out.append(enum("enum and struct variant A", [KINDS["t"]("A"), KINDS["2"]("B")]))
    out.append(T("struct and field a", "named", [F("a", "u8")], name="a"))
    # a result of their own
    for nm, pre in (("result", "pub type Result<T> = std::result::Result<T, ()>;"), ("io result", "pub use std::io::Result;"),
                    ("fmt", "pub use std::fmt::{self, *};"), ("core", "pub mod core2 {}")):
        for kk, t in (("struct", lambda k, **a: named(k, ["u8", "Option<u8>"], **a)), ("tuple", lambda k, **a: tup(k, ["u8", "String"], **a)),
                      ("enum", lambda k, **a: kinds(k, "u2tb", **a)), ("unit", lambda k, **a: T(k, "unit", **a))):
            out.append(t(f"{kk} beside a {nm} type", prelude=pre))
    return out


DOCS = [
    ("doc", "/// Some text\n"),
    ("docs", "/// Some: text, with <punctuation>\n/// and \"quotes\"\n"),
    ("block doc", "/** block */\n"),
    ("doc attr", "#[doc = \"x\"]\n"),
    ("doc hidden", "#[doc(hidden)]\n"),
    ("allow", "#[allow(dead_code)]\n"),
    ("cfg", "#[cfg(not(any()))]\n"),
    ("cfg_attr", "#[cfg_attr(all(), allow(dead_code))]\n"),
    ("deprecated", "#[deprecated(note = \"old, very\")]\n"),
    ("two", "#[allow(unused)]\n/// doc\n"),
    ("rustfmt", "#[rustfmt::skip]\n"),
    ("clippy", "#[allow(clippy::all)]\n"),
    ("comment", "// plain, comment\n"),
    ("inner comment", "/* plain */ "),
]
CONTAINER = [
    ("must_use", "#[must_use]\n"),
    ("non_exhaustive", "#[non_exhaustive]\n"),
    ("derive", "#[derive(Debug, Clone)]\n"),
    ("repr", "#[repr(C)]\n"),
    ("derive and doc", "/// d\n#[derive(Debug)]\n/// e\n"),
]


def decorations(th):
    out = []
    for nm, a in DOCS:
        for pos in range(3):
            fs = [F("a", "u8"), F("b", "Option<String>"), F("c", "Vec<u8>")]
            fs[pos].attrs = a
            out.append(T(f"{nm} on field {pos}", "named", fs))
            fs = [F("", "u8"), F("", "Option<String>"), F("", "Vec<u8>")]
            fs[pos].attrs = a
            out.append(T(f"{nm} on tuple field {pos}", "tuple", fs))
            for kind in "u2t" if pos == 1 or th else "t":
                vs = [KINDS["u"]("V0"), KINDS["2"]("V1"), KINDS["t"]("V2")]
                vs[pos] = KINDS[kind](f"V{pos}")
                vs[pos].attrs = a
                out.append(enum(f"{nm} on {kind} variant {pos}", vs))
            v = KINDS["o"]("V1")
            v.fields[pos].attrs = a
            out.append(enum(f"{nm} on variant field {pos}", [KINDS["u"]("V0"), v]))
    for nm, a in DOCS + CONTAINER:
        out.append(named(f"{nm} on struct", ["u8", "String"], head=a))
        out.append(tup(f"{nm} on tuple struct", ["u8", "String"], head=a))
        out.append(T(f"{nm} on unit struct", "unit", head=a))
        out.append(kinds(f"{nm} on enum", "u2t", head=a))
    # visibilities
    for vis in ("", "pub ", "pub(crate) ", "pub(super) ", "pub(in super) ", "pub(self) "):
        for pos in range(2):
            fs = [F("a", "u8", vis=""), F("b", "Option<String>", vis="")]
            fs[pos].vis = vis
            out.append(T(f"field {pos} {vis or 'private'}", "named", fs))
            fs = [F("", "u8", vis=""), F("", "Option<String>", vis="")]
            fs[pos].vis = vis
            out.append(T(f"tuple field {pos} {vis or 'private'}", "tuple", fs))
            fs = [F("", "(u8, String)", vis=""), F("", "(u8, u8)", vis="")]
            fs[pos].vis = vis
            out.append(T(f"tuple field {pos} of tuples {vis or 'private'}", "tuple", fs))
            fs = [F("", "u8", vis=""), F("", "String", vis="")]
            fs[pos].vis = vis
            fs[pos].attrs = "/// doc\n"
            out.append(T(f"tuple field {pos} {vis or 'private'} with doc", "tuple", fs))
    for vis in ("",):
        for t in (named, tup):
            out.append(t(f"{t.__name__} private", ["u8", "String"], vis=vis))
        out.append(T("private unit", "unit", vis=vis))
        out.append(kinds("enum private", "u2t", vis=vis))
    # discriminants
    for tails in itertools.product(["", " = 5", " = 0x10", " = 1"], repeat=2):
        if tails[0] != tails[1] or not tails[0]:
            out.append(enum(f"discriminants{tails[0]},{tails[1]}", [V("A", tail=tails[0]), V("B", tail=tails[1]), V("C")]))
    for nm, tail in (("negative", " = -3"), ("constant", " = X"), ("sum", " = 1 + 1"), ("char", " = b'a' as isize"), ("shift", " = 1 << 2"), ("path", " = self::X"),
                     ("paren", " = (2 + 1)"), ("call", " = f()"), ("block", " = { 7 }")):
        pre = "pub const X: isize = 9; pub const fn f() -> isize { 3 }"
        out.append(enum(f"discriminant {nm} first", [V("A", tail=tail), V("B"), V("C")], prelude=pre))
        out.append(enum(f"discriminant {nm} middle", [V("A"), V("B", tail=tail), V("C")], prelude=pre))
        out.append(enum(f"discriminant {nm} last", [V("A"), V("B"), V("C", tail=tail)], prelude=pre))
    out.append(enum("repr u8", [V("A", tail=" = 200"), V("B"), V("C", tail=" = 3")], head="#[repr(u8)]\n"))
    out.append(enum("repr i32", [V("A", tail=" = -200"), V("B"), V("C", tail=" = 3")], head="#[repr(i32)]\n"))
    out.append(enum("repr with fields", [V("A", tail=" = 7"), V("B", "tuple", [F("", "u8", vis="")], tail=" = 3"), V("C", "named", [F("x", "u8", vis="")], tail=" = 9"), V("D")], head="#[repr(u16)]\n"))
    # doc and discriminant, doc and attribute
    out.append(enum("documented discriminants", [V("A", attrs="/// a\n", tail=" = 2"), V("B", attrs="/// b\n#[allow(dead_code)]\n"), V("C", attrs="/// c\n", tail=" = 7")]))
    return out


def layout(th):
    """The same declarations spelled in other ways."""
    out = []

    def D(key, decl, fields=None, variants=None, kind="named", **k):
        out.append(T(key, kind, fields, variants, decl=decl, **k))

    ab = [F("a", "u8"), F("b", "Option<String>")]
    for key, d in {
        "trailing comma": "pub struct A { pub a: u8, pub b: Option<String>, }",
        "no trailing comma": "pub struct A { pub a: u8, pub b: Option<String> }",
        "compact": "pub struct A{pub a:u8,pub b:Option<String>}",
        "spread": "pub\nstruct\nA\n{\npub\na\n:\nu8\n,\npub b : Option < String > ,\n}",
        "comments": "pub struct /* x */ A /* y */ { /* z */ pub a /* : */ : /* u8 */ u8 /* , */ , // end\n pub b: Option</* in */String> }",
    }.items():
        D(f"named {key}", d, ab)
    tt = [F("", "u8"), F("", "Option<String>")]
    for key, d in {
        "trailing comma": "pub struct A(pub u8, pub Option<String>,);",
        "compact": "pub struct A(pub u8,pub Option<String>);",
        "spread": "pub struct A (\n pub u8 ,\n pub Option < String >\n) ;",
        "one with comma": None,
    }.items():
        if d:
            D(f"tuple {key}", d, tt, kind="tuple")
    D("tuple one with comma", "pub struct A(pub u8,);", [F("", "u8")], kind="tuple")
    D("unit braces", "pub struct A {}", [], kind="named")
    D("unit parens", "pub struct A();", [], kind="tuple")
    D("unit plain", "pub struct A;", [], kind="unit")
    D("unit spaced", "pub struct A { }", [], kind="named")
    uvs = [V("A1"), V("B1", "tuple", [F("", "u8", vis="")]), V("C1", "named", [F("x", "Option<u8>", vis="")]), V("D1")]
    for key, d in {
        "trailing comma": "pub enum A { A1, B1(u8), C1 { x: Option<u8> }, D1, }",
        "no trailing comma": "pub enum A { A1, B1(u8), C1 { x: Option<u8> }, D1 }",
        "compact": "pub enum A{A1,B1(u8),C1{x:Option<u8>},D1}",
        "inner commas": "pub enum A { A1, B1(u8,), C1 { x: Option<u8>, }, D1 }",
        "spread": "pub enum A\n{\nA1\n,\nB1\n(\nu8\n)\n,\nC1\n{\nx\n:\nOption\n<\nu8\n>\n}\n,\nD1\n}",
        "comments": "pub enum A { /* 1 */ A1 /* 2 */, // x\n B1( /* 3 */ u8 ), C1 { x /* : */: Option<u8> } /* 4 */, D1 }",
    }.items():
        D(f"enum {key}", d, None, uvs, kind="enum")
    D("enum last is a struct", "pub enum A { A1, C1 { x: u8 } }", None, [V("A1"), V("C1", "named", [F("x", "u8")])], kind="enum")
    D("enum last is a struct with comma", "pub enum A { A1, C1 { x: u8, }, }", None, [V("A1"), V("C1", "named", [F("x", "u8")])], kind="enum")
    D("enum empty variants", "pub enum A { A1(), B1 {}, C1, D1(u8) }", None, [V("A1", "tuple"), V("B1", "named"), V("C1"), V("D1", "tuple", [F("", "u8")])], kind="enum")

    # made by a macro
    def M(key, macro, fields=None, variants=None, kind="named", **k):
        out.append(T("macro " + key, kind, fields, variants, decl="", fmt=macro, **k))

    dv = "#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon)]"
    esc = lambda s: s.replace("{", "{{").replace("}", "}}")
    M("plain", esc("macro_rules! mk { () => { " + dv + " pub struct A { pub a: u8, pub b: Option<String> } } } mk!();"), ab)
    M("ident and ty", esc("macro_rules! mk { ($n:ident $($f:ident $t:ty),*) => { " + dv + " pub struct $n { $(pub $f: $t),* } } } mk!(A a u8, b String);"), [F("a", "u8"), F("b", "String")])
    M("ty of containers", esc("macro_rules! mk { ($n:ident $($f:ident $t:ty),*) => { " + dv + " pub struct $n { $(pub $f: $t),* } } } mk!(A a Vec<u8>, b (u8, u8), c [u8; 2], d BTreeMap<String, u8>);"),
      [F("a", "Vec<u8>"), F("b", "(u8, u8)"), F("c", "[u8; 2]"), F("d", "BTreeMap<String, u8>")])
    M("tuple of ty", esc("macro_rules! mk { ($n:ident $($t:ty),*) => { " + dv + " pub struct $n ( $(pub $t),* ); } } mk!(A u8, Vec<String>, (u8, u8));"), [F("", "u8"), F("", "Vec<String>"), F("", "(u8, u8)")], kind="tuple")
    M("enum of idents", esc("macro_rules! mk { ($n:ident $($v:ident),*) => { " + dv + " pub enum $n { $($v),* } } } mk!(A B1, C1, D1);"), None, [V("B1"), V("C1"), V("D1")], kind="enum")
    M("enum of ty", esc("macro_rules! mk { ($n:ident $($v:ident $t:ty),*) => { " + dv + " pub enum $n { $($v($t)),*, S { $($v: $t),* } } } } mk!(A B1 u8, C1 Vec<u8>);"), None,
      [V("B1", "tuple", [F("", "u8")]), V("C1", "tuple", [F("", "Vec<u8>")]), V("S", "named", [F("B1", "u8"), F("C1", "Vec<u8>")])], kind="enum")
    M("vis", esc("macro_rules! mk { ($v:vis $n:ident $w:vis $f:ident) => { " + dv + " $v struct $n { $w $f: u8 } } } mk!(pub A pub a);"), [F("a", "u8")])
    M("meta", esc("macro_rules! mk { ($(#[$m:meta])* $n:ident $f:ident) => { " + dv + " $(#[$m])* pub struct $n { $(#[$m])* pub $f: u8 } } } mk!(#[allow(unused)] #[doc = \"x\"] A a);"), [F("a", "u8")])
    M("tt", esc("macro_rules! mk { ($($x:tt)*) => { " + dv + " $($x)* } } mk!(pub struct A { pub a: Vec<u8>, pub b: (u8, String) });"), [F("a", "Vec<u8>"), F("b", "(u8, String)")])
    M("item", esc("macro_rules! mk { ($x:item) => { " + dv + " $x } } mk!(pub struct A { pub a: Vec<u8>, pub b: (u8, String) });"), [F("a", "Vec<u8>"), F("b", "(u8, String)")])
    M("literal length", esc("macro_rules! mk { ($n:ident $l:literal) => { " + dv + " pub struct $n { pub a: [u8; $l] } } } mk!(A 2);"), [F("a", "[u8; 2]")])
    return out


def generics(th):
    out = []
    pre1 = "type T = u8;"
    pre2 = "type T = u8; type U = String;"
    pre3 = pre2 + " type W = Inner;"
    bounds1 = ["<T>", "<T,>", "<T: Clone>", "<T: Clone + Default>", "<T: std::fmt::Debug>", "<T: ::core::fmt::Debug + Clone>", "<T: PartialEq<u8>>", "<T: Into<u64> + Copy>", "<T: From<u8>>",
               "<T = u8>", "<T: Clone = u8>", "< T >", "<T: AsRef2>", "<T: Iterator2<Item = u8>>", "<T: PartialEq<T>>", "<T: std::ops::Add<Output = T> + Copy>", "<T: super::super::Mark2>"]
    extra = " pub trait AsRef2 {} impl AsRef2 for u8 {} pub trait Iterator2 { type Item; } impl Iterator2 for u8 { type Item = u8; }"
    bounds1 = [b for b in bounds1 if "Mark2" not in b]
    wh1 = ["", "T: Clone", "T: Clone,", "T: Clone + Default", "T: std::fmt::Debug, T: Clone"]
    shapes1 = [
        ("named", dict(kind="named", fields=lambda: [F("a", "T"), F("b", "Vec<T>"), F("c", "Option<T>")])),
        ("tuple", dict(kind="tuple", fields=lambda: [F("", "T"), F("", "u8")])),
        ("newtype", dict(kind="tuple", fields=lambda: [F("", "T")])),
        ("enum", dict(kind="enum", variants=lambda: [V("A1"), V("B1", "tuple", [F("", "T", vis="")]), V("C1", "named", [F("x", "Vec<T>", vis=""), F("y", "Option<T>", vis="")])])),
    ]
    for (nm, sh), b, w in itertools.product(shapes1, bounds1, wh1):
        if w and b not in ("<T>", "<T: Clone>", "<T,>"):
            continue
        kw = {k: (v() if callable(v) else v) for k, v in sh.items()}
        out.append(T(f"generic {nm}{b} where {w}", name="G", generics=b, where=w, inst="<T>", prelude=pre1 + extra, **kw))
    # the same parameter as other types
    for ty in POOL + ["Vec<Option<u8>>", "G<u8>", "Vec<G<G<u8>>>"]:
        for nm, sh in shapes1:
            if ty.startswith("Option") or "Duration" in ty and nm == "enum":
                pass
            kw = {k: (v() if callable(v) else v) for k, v in sh.items()}
            if "G<" in ty:
                continue
            if ty.startswith("Option"):
                # an option of an option is not written unambiguously
                if nm in ("named", "enum"):
                    continue
            out.append(T(f"generic {nm} of {ty}", name="G", generics="<T>", inst="<T>", prelude=f"type T = {ty};", **kw))
    for b, w in [("<T, U>", ""), ("<T,U,>", ""), ("<T: Clone, U>", ""), ("<T, U: Clone + Default>", ""), ("<T, U = String>", ""), ("<T = u8, U = String>", ""), ("<T: Clone = u8, U: Default = String>", ""),
                 ("<T, U>", "T: Clone, U: Default"), ("<T, U>", "U: Clone"), ("<T: Clone, U>", "T: Default, U: Clone,"), ("<T: PartialEq<u8> + Clone, U: PartialEq<str>>", ""), ("<T, U: From<&'static str>>", ""),
                 ("<T, U: AsRef<[u8]>>", ""), ("<T, U: Into<Vec<u8>>>", "")]:
        for nm, kw in [
            ("named", dict(kind="named", fields=[F("a", "T"), F("b", "Vec<U>"), F("c", "BTreeMap<String, T>"), F("d", "(T, U)")])),
            ("tuple", dict(kind="tuple", fields=[F("", "T"), F("", "Option<U>")])),
            ("enum", dict(kind="enum", variants=[V("A1", "tuple", [F("", "T", vis=""), F("", "U", vis="")]), V("C1", "named", [F("x", "[T; 2]", vis=""), F("y", "Option<U>", vis="")]), V("D1")])),
        ]:
            out.append(T(f"generic {nm}{b} where {w}", name="G", generics=b, where=w, inst="<T, U>", prelude=pre2, **kw))
    for b in ("<T, U, W>", "<T: Clone, U: Clone, W: Clone>", "<T, U: Default, W>"):
        out.append(T(f"generic named{b}", "named", [F("a", "W"), F("b", "U"), F("c", "T"), F("d", "Vec<(T, U, W)>")], name="G", generics=b, inst="<T, U, W>", prelude=pre3))
        out.append(T(f"generic enum{b}", "enum", variants=[V("A1", "tuple", [F("", "W", vis=""), F("", "T", vis="")]), V("B1", "named", [F("u", "U", vis="")])], name="G", generics=b, inst="<T, U, W>", prelude=pre3))
    # parameter names which occur in generated code
    for p in ("S", "D", "I", "O", "R", "E", "K", "Item", "Inner1", "Tt", "TLong", "T1"):
        out.append(T(f"generic parameter {p}", "named", [F("a", p), F("b", f"Vec<{p}>")], name="Gg", generics=f"<{p}>", inst="<u8>", prelude="",
                     ) if False else T(f"generic parameter {p}", "named", [F("a", p, mty="u8"), F("b", f"Vec<{p}>", mty="Vec<u8>")], name="Gg", generics=f"<{p}>", inst="<u8>"))
        out.append(T(f"generic enum parameter {p}", "enum", variants=[V("Aa", "tuple", [F("", p, vis="", mty="u8")]), V("Bb", "named", [F("x", f"Option<{p}>", vis="", mty="Option<u8>")])], name="Gg", generics=f"<{p}>", inst="<u8>"))
    # a parameter used only behind a container or not in a field itself
    out.append(T("generic phantom", "named", [F("a", "u8"), F("b", "Vec<T>")], name="G", generics="<T>", inst="<T>", prelude="type T = String;"))
    # types within types
    out.append(T("generic nested", "named", [F("a", "G2<T>"), F("b", "Vec<G2<Vec<T>>>")], name="G", generics="<T>", inst="<T>", prelude="type T = u8;\n" + helper("G2")))
    out.append(T("generic instance in a field", "named", [F("a", "G2<u8>"), F("b", "Option<G2<String>>"), F("c", "Vec<G2<Vec<u8>>>")], prelude=helper("G2")))
    out.append(T("generic instance in a variant", "enum", variants=[V("B", "tuple", [F("", "G2<u8>", vis="")]), V("C", "named", [F("x", "Option<G2<String>>", vis="")])], prelude=helper("G2")))
    out.append(T("recursive option", "named", [F("a", "u8"), F("b", "Option<Box<A>>")]))
    out.append(T("recursive vec", "named", [F("a", "u8"), F("b", "Vec<A>")]))
    out.append(T("recursive map", "named", [F("a", "u8"), F("b", "BTreeMap<String, A>")]))
    out.append(T("recursive enum", "enum", variants=[V("L"), V("N", "tuple", [F("", "Box<A>", vis=""), F("", "Vec<A>", vis="")]), V("S", "named", [F("x", "Option<Box<A>>", vis="")])]))
    out.append(T("recursive self", "named", [F("a", "u8"), F("b", "Vec<Self>", mty="Vec<A>")]))
    out.append(T("recursive self option", "named", [F("a", "u8"), F("b", "Option<Box<Self>>", mty="Option<Box<A>>")]))
    out.append(T("recursive self enum", "enum", variants=[V("L"), V("N", "tuple", [F("", "Box<Self>", vis="", mty="Box<A>")])]))
    out.append(T("recursive tuple", "tuple", [F("", "u8"), F("", "Vec<A>")]))
    out.append(T("recursive generic", "named", [F("a", "T"), F("b", "Vec<G<T>>")], name="G", generics="<T>", inst="<T>", prelude="type T = u8;"))
    return out


def helper(n):
    """A generic struct to be used in fields."""
    return f"""#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon)] pub struct {n}<X> {{ pub x: X }}
impl<X: Model> Model for {n}<X> {{
fn schema() -> S {{ S::Struct(Arc::new(StructS {{ name: "{n}".into(), kind: Kind::Named, fields: vec![FieldS::new("x", S::Lazy(X::schema))], transparent: false, proxy: None }})) }}
fn to_val(&self) -> Val {{ Val::Tup(vec![self.x.to_val()]) }}
fn from_val(v: &Val) -> Self {{ {n} {{ x: X::from_val(&v.items()[0]) }} }} }}"""


LEAVES = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "String", "Duration", "SystemTime", "()", "Inner"]
BIN_LEAVES = ["u128", "i128"]
CONT = ["Option<{}>", "Vec<{}>", "Box<{}>", "LinkedList<{}>", "BTreeSet<{}>", "HashSet<{}>", "BTreeMap<String, {}>", "HashMap<String, {}>", "BTreeMap<u8, {}>",
        "[{}; 1]", "[{}; 3]", "({}, u8)", "(u8, {})", "(u8, {}, String)", "({0}, {0}, {0}, {0})"]
ORD = {"Option", "Vec", "Box", "LinkedList", "BTreeSet", "BTreeMap", "[", "("}


def hashable(t):
    return not any(x in t for x in ("f32", "f64", "HashSet", "HashMap"))


def fine(t):
    """Whether the crate supports the type, and writes it unambiguously."""
    c = t.replace(" ", "")
    for bad in ("Option<Option", "Option<()>", "Option<SystemTime>", "Option<Box<Option", "Option<Box<()>>", "Option<Box<SystemTime"):
        if bad in c:
            return False
    for s in ("BTreeSet<", "HashSet<"):
        k = c.find(s)
        if k >= 0 and not hashable(c[k + len(s):]):
            return False
    return True


def pos3(key, ty, mty=None, required=False, **k):
    if ty.startswith("Box<Option"):
        # whether such a field may be left out is up to the crate
        required, k = True, dict(k, layout=False)
    f = lambda n, vis="pub ": F(n, ty, vis=vis, mty=mty, required=required)
    return [
        T(f"field {key}", "named", [F("a", "u8"), f("b"), F("c", "bool")], **k),
        T(f"tuple field {key}", "tuple", [F("", "u8"), f(""), F("", "bool")], **k),
        T(f"variant field {key}", "enum", variants=[V("A1", "tuple", [f("", ""), F("", "u8", vis="")]), V("B1", "named", [f("x", ""), F("y", "u8", vis="")])], **k),
    ]


NOTATIONS = [
    ("std::vec::Vec<u8>", "Vec<u8>"), ("::std::vec::Vec<u8>", "Vec<u8>"), ("std::string::String", "String"), ("::std::string::String", "String"),
    ("std::collections::BTreeMap<String, u8>", "BTreeMap<String, u8>"), ("::std::collections::HashMap<std::string::String, ::std::vec::Vec<u8>>", "HashMap<String, Vec<u8>>"),
    ("std::boxed::Box<u8>", "Box<u8>"), ("::core::primitive::u8", "u8"), ("core::primitive::u16", "u16"), ("std::primitive::f32", "f32"),
    ("super::Inner", "Inner"), ("crate::Inner", "Inner"), ("self::super::Inner", "Inner"), ("Vec<super::Inner>", "Vec<Inner>"), ("Vec<crate::Inner>", "Vec<Inner>"),
    ("std::time::Duration", "Duration"), ("Vec < u8 >", "Vec<u8>"), ("Vec<Vec<u8>>", "Vec<Vec<u8>>"), ("Vec<Vec<Vec<u8>>>", "Vec<Vec<Vec<u8>>>"), ("Vec<Vec<Vec<Vec<u8>>>>", "Vec<Vec<Vec<Vec<u8>>>>"),
    ("Vec<u8,>", "Vec<u8>"), ("BTreeMap<String, u8,>", "BTreeMap<String, u8>"), ("(u8, u8,)", "(u8, u8)"), ("(u8,u8)", "(u8, u8)"), ("[u8;2]", "[u8; 2]"), ("[ u8 ; 2 ]", "[u8; 2]"),
    ("[[u8; 2]; 2]", "[[u8; 2]; 2]"), ("[(u8, u8); 2]", "[(u8, u8); 2]"), ("([u8; 2], (u8, u8))", "([u8; 2], (u8, u8))"), ("((u8, u8), (u8, u8))", "((u8, u8), (u8, u8))"),
    ("[Vec<[u8; 2]>; 2]", "[Vec<[u8; 2]>; 2]"), ("Vec<[Option<u8>; 2]>", "Vec<[Option<u8>; 2]>"), ("Vec<(Option<u8>, [u8; 2])>", "Vec<(Option<u8>, [u8; 2])>"),
    ("[u8; 0]", "[u8; 0]"), ("[u8; 2usize]", "[u8; 2]"), ("[u8; 0x2]", "[u8; 2]"), ("[u8; 1_0]", "[u8; 10]"), ("[u8; N]", "[u8; 2]"), ("[u8; self::N]", "[u8; 2]"), ("[u8; 1 + 1]", "[u8; 2]"), ("[u8; { 2 }]", "[u8; 2]"),
    ("[u8; (2)]", "[u8; 2]"), ("[u8; N as usize]", "[u8; 2]"), ("[u8; N + 1]", "[u8; 3]"), ("[u8; M as usize]", "[u8; 2]"), ("[u8; 2 * N]", "[u8; 4]"), ("[u8; <u8 as Len>::LEN]", "[u8; 2]"),
    ("Alias", "Vec<u8>"), ("Alias2<u8>", "Vec<u8>"), ("self::Alias", "Vec<u8>"), ("<u8 as Assoc>::Out", "u16"), ("Vec<<u8 as Assoc>::Out>", "Vec<u16>"), ("(u8)", "u8"), ("(Vec<u8>)", "Vec<u8>"), ("Vec<(u8)>", "Vec<u8>"), ("((u8), (String))", "(u8, String)"), ("Vec::<u8>", "Vec<u8>"), ("std::vec::Vec::<u8>", "Vec<u8>"), ("BTreeMap::<String, u8>", "BTreeMap<String, u8>"),
]
OPT_NOTATIONS = ["std::option::Option<u8>", "::core::option::Option<String>", "core::option::Option<Vec<u8>>", "Maybe", "Maybe2<u8>", "(Option<u8>)", "Box<Option<u8>>"]
NOTE_PRE = "pub const N: usize = 2; pub const M: u8 = 2; pub type Alias = Vec<u8>; pub type Alias2<X> = Vec<X>; pub trait Assoc { type Out; } impl Assoc for u8 { type Out = u16; } pub trait Len { const LEN: usize; } impl Len for u8 { const LEN: usize = 2; } pub type Maybe = Option<u8>; pub type Maybe2<X> = Option<X>;"
OPT_M = {"Maybe": "Option<u8>", "Maybe2<u8>": "Option<u8>", "(Option<u8>)": "Option<u8>"}


def types(th):
    out = []
    for l in LEAVES:
        out += pos3(l, l)
    for l in BIN_LEAVES:
        out += pos3(l, l, formats="b", derives="DeBin, SerBin")
    for c in CONT:
        for l in LEAVES if th else ["u8", "String", "f64", "bool", "Inner", "()", "i32"]:
            t = c.format(l)
            if fine(t):
                out += pos3(t, t)
    leaves2 = ["u8", "Inner", "String"] if th else ["u8"]
    for c1, c2 in itertools.product(CONT, CONT):
        for l in leaves2:
            t = c1.format(c2.format(l))
            if fine(t):
                out += pos3(t, t) if th else pos3(t, t)[(len(out) // 1) % 3::3][:1] if False else [pos3(t, t)[(CONT.index(c1) + CONT.index(c2)) % 3], pos3(t, t)[0]] if (CONT.index(c1) + CONT.index(c2)) % 3 else [pos3(t, t)[0]]
    if th:
        five = ["Option<{}>", "Vec<{}>", "BTreeMap<String, {}>", "[{}; 2]", "({}, u8)", "Box<{}>"]
        for a, b, c in itertools.product(five, repeat=3):
            t = a.format(b.format(c.format("u8")))
            if fine(t):
                out += pos3(t, t)
    for n, m in NOTATIONS:
        out += pos3(f"written {n}", n, mty=m, prelude=NOTE_PRE)
    # maps with other hashers are a matter of JSON
    pre = "#[derive(Default)] pub struct Count(u64); impl std::hash::Hasher for Count { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { self.0 += b.len() as u64 } } pub type By = std::hash::BuildHasherDefault<Count>;"
    for n, m in (("HashMap<String, u8, By>", "HashMap<String, u8>"), ("HashMap<u16, Vec<u8>, self::By>", "HashMap<u16, Vec<u8>>"), ("Vec<HashMap<String, HashMap<String, u8, By>, By>>", "Vec<HashMap<String, HashMap<String, u8>>>"), ("std::collections::HashMap<String, Inner, std::hash::BuildHasherDefault<Count>>", "HashMap<String, Inner>")):
        out += pos3(f"hashed by {n}", n, mty=m, prelude=pre, formats="j", derives="DeJson, SerJson")
    for n in OPT_NOTATIONS:
        # whether such a field may be left out is up to the crate
        out += pos3(f"written {n}", n, mty=OPT_M.get(n, n), required=True, prelude=NOTE_PRE, layout=False)
    return out


def derives(th):
    """Single derives and pairs."""
    out = []
    shapes = [("struct", lambda k, **a: named(k, ["u8", "Option<Inner>"], **a)), ("tuple", lambda k, **a: tup(k, ["u8", "String"], **a)),
              ("enum", lambda k, **a: kinds(k, "u2t", **a)), ("unit", lambda k, **a: T(k, "unit", **a))]
    for nm, t in shapes:
        for f, d in (("b", "DeBin, SerBin"), ("j", "DeJson, SerJson"), ("r", "DeRon, SerRon"), ("bj", "SerBin, SerJson, DeBin, DeJson"), ("jr", "SerRon, DeJson, SerJson, DeRon"), ("bjr", "SerRon, SerJson, SerBin, DeRon, DeJson, DeBin"),
                     ("bjr", "nanoserde::DeBin, nanoserde::SerBin, ::nanoserde::DeJson, ::nanoserde::SerJson, DeRon, SerRon, Debug, Clone, PartialEq"), ("bjr", "Debug, " + "DeBin, SerBin, Clone, DeJson, SerJson, DeRon, SerRon, Default2"),):
            if "Default2" in d:
                d = d.replace(", Default2", "")
            out.append(t(f"{nm} deriving {d}", derives=d, formats=f))
    return out + alone(th)


TRAITS = {
    "DeBin": "fn de_bin(o: &mut usize, d: &[u8]) -> core::result::Result<Self, nanoserde::DeBinErr> { let v: u8 = nanoserde::DeBin::de_bin(o, d)?; Ok(Self::of(v)) }",
    "SerBin": "fn ser_bin(&self, s: &mut Vec<u8>) { nanoserde::SerBin::ser_bin(&self.v, s) }",
    "DeJson": "fn de_json(s: &mut nanoserde::DeJsonState, i: &mut core::str::Chars) -> core::result::Result<Self, nanoserde::DeJsonErr> { let v: u8 = nanoserde::DeJson::de_json(s, i)?; Ok(Self::of(v)) }",
    "SerJson": "fn ser_json(&self, d: usize, s: &mut nanoserde::SerJsonState) { nanoserde::SerJson::ser_json(&self.v, d, s) }",
    "DeRon": "fn de_ron(s: &mut nanoserde::DeRonState, i: &mut core::str::Chars) -> core::result::Result<Self, nanoserde::DeRonErr> { let v: u8 = nanoserde::DeRon::de_ron(s, i)?; Ok(Self::of(v)) }",
    "SerRon": "fn ser_ron(&self, d: usize, s: &mut nanoserde::SerRonState) { nanoserde::SerRon::ser_ron(&self.v, d, s) }",
}


def alone(th):
    """One trait derived alone, all parts of the type having that trait and nothing else. Whether this compiles is all that is asked."""
    out = []
    for tr, body in TRAITS.items():
        de, fmt = tr.startswith("De"), tr[2:] if tr.startswith("De") else tr[3:]
        text = fmt != "Bin"
        # Only: the trait; Nothing: no trait; Away: reached by its proxy Near, which has the trait, in this direction only
        pre = ("mod parts { pub struct Only { v: u8 } impl Only { fn of(v: u8) -> Self { Self { v } } }\n"
               f"impl nanoserde::{tr} for Only {{ {body} }}\n"
               "pub struct Nothing; pub struct Away; pub struct Near { v: u8 } impl Near { fn of(v: u8) -> Self { Self { v } } }\n"
               f"impl nanoserde::{tr} for Near {{ {body} }}\n"
               + ("impl From<&Near> for Away { fn from(_: &Near) -> Self { Away } }" if de else "impl From<&Away> for Near { fn from(_: &Away) -> Self { Near { v: 1 } } }")
               # what a value left out is made of
               + ("impl Default for Nothing { fn default() -> Self { Nothing } } impl Default for Only { fn default() -> Self { Only { v: 0 } } }" if de else "")
               + "pub fn only() -> Only { Only { v: 7 } } }\nuse parts::*;\n")
        tys = ["Only", "Option<Only>", "Vec<Only>", "Box<Only>", "[Only; 2]", "(Only, Only)", "Vec<Option<Only>>", "Option<Vec<(Only, u8)>>", "LinkedList<Only>"]
        items = []
        for t in tys:
            n = t
            items += [(f"struct of {n}", f"struct X {{ a: {t}, b: {t} }}"), (f"tuple struct of {n}", f"struct X({t}, {t});"), (f"newtype of {n}", f"struct X({t});"),
                      (f"enum of {n}", f"enum X {{ A, B({t}), C {{ x: {t}, y: {t} }}, D({t}, {t}) }}")]
            for g, w in (("T", ""), ("T: Big", ""), ("T", "where T: Big"), (f"T: nanoserde::{tr}", "")):
                gt = t.replace("Only", "T")
                big = "trait Big {} impl Big for Only {} " if "Big" in g + w else ""
                need = f" fn want<Z: nanoserde::{tr}>() {{}} fn have() {{ want::<X<Only>>() }}"
                items += [(f"generic struct <{g}> {w} of {n}", f"{big}#d struct X<{g}> {w} {{ a: {gt}, b: {gt} }}" + need), (f"generic tuple struct <{g}> {w} of {n}", f"{big}#d struct X<{g}>({gt}, {gt}) {w};" + need),
                          (f"generic enum <{g}> {w} of {n}", f"{big}#d enum X<{g}> {w} {{ A, B({gt}), C {{ x: {gt}, y: {gt} }} }}" + need)]
        items += [("unit struct", "struct X;"), ("empty struct", "struct X {}"), ("empty tuple struct", "struct X();"), ("unit enum", "enum X { A, B }"),
                  ("recursive struct", "struct X { a: Only, b: Option<Box<X>>, c: Vec<X> }"), ("recursive enum", "enum X { A, B(Box<X>), C { x: Vec<X>, y: Only } }"),
                  ]
        if fmt != "Ron":
            items.append(("proxy in a struct", 'struct X { a: u8, #[nserde(proxy = "Near")] b: Away, c: Only }'))
        if not text:
            items += [("proxy of a type", '#[nserde(proxy = "Near")] struct X { a: Nothing }' + (" impl From<&Near> for X { fn from(_: &Near) -> Self { X { a: Nothing } } }" if de else " impl From<&X> for Near { fn from(_: &X) -> Self { Away_() } } fn Away_() -> Near { Near::from(&Away) }"))]
        items += [("skip in a struct", "struct X { a: Only, #[nserde(skip)] b: Nothing, c: Only }"), ("skip first", "struct X { #[nserde(skip)] b: Nothing, c: Only }"), ("all skipped", "struct X { #[nserde(skip)] a: Nothing, #[nserde(skip)] b: Nothing }")]
        if text:
            items += [("default", "struct X { #[nserde(default)] a: Only, b: Only }"), ("default with", 'struct X { #[nserde(default_with = "only")] a: Only, b: Only }'),
                      ("default container", "#[nserde(default)] struct X { a: Only, b: Option<Only> } " + ("impl Default for X { fn default() -> Self { X { a: only(), b: None } } }" if de else "")),
                      ("rename", 'struct X { #[nserde(rename = "q")] a: Only }')]
        if fmt == "Json":
            items += [("transparent", "#[nserde(transparent)] struct X(Only);"), ("nulls", "#[nserde(serialize_none_as_null)] struct X { a: Option<Only>, b: Only }"),
                      ("rename in an enum", 'enum X { #[nserde(rename = "q")] A, #[nserde(rename = "r")] B(Only) }')]
        if not th:
            # each of the generics with each of the containers is for the thorough run
            items = [(k, d) for k, d in items if "generic" not in k or k.endswith(("of Only", "of Option<Only>", "of Vec<Only>"))]
        for k, d in items:
            d = d.replace("#d ", f"#[derive({tr})] ") if "#d" in d else f"#[derive({tr})] {d}"
            out.append(T(f"{tr} alone on a {k}", "unit", prelude=f"mod alone {{ use nanoserde::{tr}; use std::collections::LinkedList;\n{pre}{d}\n}}", title=f"{pre}{d}"))
    return out


def all_types(th):
    out = sequences(th) + names(th) + decorations(th) + layout(th) + generics(th) + types(th) + derives(th)
    seen = {}
    for t in out:
        k = t.key
        if k in seen:
            seen[k] += 1
            t.key = f"{k} ({seen[k]})"
        else:
            seen[k] = 1
    return out


def bounds(th, n):
    return (f"structs and tuple structs of all sequences of up to {3 if th else 2} field types of a pool of {len(POOL)} (less for the longer ones), enums of all sequences of up to {4 if th else 3} variants of 9 kinds (less for the longer ones), "
            f"up to 300 fields or variants, {len(FIELDS)} field and {len(VARIANTS)} variant and {len(NAMES)} type names in every position, attributes and visibilities in every position, discriminants, spellings, macros, "
            "generics with bounds and where clauses, every pair of nested containers, notations of types; values with at most one deviation")


if __name__ == "__main__":
    import sys
    for th in (False, True):
        print(len(all_types(th)))
