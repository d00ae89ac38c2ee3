"""C16: declarations with every combination of attributes."""
import itertools
from rust import F, V, T, q

# a type, what default = "…" says and means, and what the function default_with names returns
TYPES = {
    "u8": ("7", "Val::U(7)", "9", "Val::U(9)"),
    "String": ("dflt", 'Val::str("dflt")', '"w".to_string()', 'Val::str("w")'),
    "Option<u8>": ("5", "Val::Opt(Some(Box::new(Val::U(5))))", "Some(6)", "Val::Opt(Some(Box::new(Val::U(6))))"),
    "Option<String>": ("os", 'Val::Opt(Some(Box::new(Val::str("os"))))', 'None', 'Val::none()'),
    "Inner": ("super::Inner { p: 3, q: String::new() }", 'Val::Tup(vec![Val::U(3), Val::str("")])', 'Inner { p: 1, q: "z".into() }', 'Val::Tup(vec![Val::U(1), Val::str("z")])'),
    "Vec<u8>": ("vec![1, 2]", "Val::Seq(vec![Val::U(1), Val::U(2)])", "vec![3]", "Val::Seq(vec![Val::U(3)])"),
    "bool": ("true", "Val::Bool(true)", "true", "Val::Bool(true)"),
    "i32": ("-5", "Val::I(-5)", "-6", "Val::I(-6)"),
    "f64": ("1.5", "Val::F64(1.5f64.to_bits())", "-2.5", "Val::F64((-2.5f64).to_bits())"),
    "Option<Inner>": ("Inner::default()", 'Val::Opt(Some(Box::new(Val::Tup(vec![Val::U(0), Val::str("")]))))', "Some(Inner { p: 2, q: String::new() })", 'Val::Opt(Some(Box::new(Val::Tup(vec![Val::U(2), Val::str("")]))))'),
    "BTreeMap<String, u8>": (None, None, "vec![(String::new(), 1)].into_iter().collect()", 'Val::Map(vec![(Val::str(""), Val::U(1))])'),
    "(u8, bool)": ("(1, true)", "Val::Tup(vec![Val::U(1), Val::Bool(true)])", "(2, false)", "Val::Tup(vec![Val::U(2), Val::Bool(false)])"),
}

# proxies: a type, the code declaring it, and how values correspond
PU = """#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon)] pub struct PU { pub v: u16 }
impl From<&u8> for PU { fn from(x: &u8) -> PU { PU { v: *x as u16 + 1000 } } }
impl From<&PU> for u8 { fn from(x: &PU) -> u8 { x.v.wrapping_sub(1000) as u8 } }
fn pu_schema() -> S { S::Struct(Arc::new(StructS { name: "PU".into(), kind: Kind::Named, fields: vec![FieldS::new("v", S::U(2))], transparent: false, proxy: None })) }
fn pu_to(v: &Val) -> Val { let Val::U(x) = v else { panic!() }; Val::Tup(vec![Val::U(*x + 1000)]) }
fn pu_from(v: &Val) -> Val { let Val::U(x) = v.items()[0] else { panic!() }; Val::U((x as u16).wrapping_sub(1000) as u8 as u128) }
fn opu_to(v: &Val) -> Val { let Val::Opt(Some(x)) = v else { panic!() }; pu_to(x) }
fn opu_from(v: &Val) -> Val { Val::Opt(Some(Box::new(pu_from(v)))) }
"""
PS = """#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon)] pub struct PS(pub String);
impl From<&String> for PS { fn from(x: &String) -> PS { PS(format!("p{x}")) } }
impl From<&PS> for String { fn from(x: &PS) -> String { x.0.chars().skip(1).collect() } }
fn ps_schema() -> S { S::Struct(Arc::new(StructS { name: "PS".into(), kind: Kind::Tuple, fields: vec![FieldS::new("0", S::Str)], transparent: false, proxy: None })) }
fn ps_to(v: &Val) -> Val { let Val::Str(x) = v else { panic!() }; Val::Tup(vec![Val::str(&format!("p{x}"))]) }
fn ps_from(v: &Val) -> Val { let Val::Str(x) = &v.items()[0] else { panic!() }; Val::Str(x.chars().skip(1).collect()) }
fn ops_to(v: &Val) -> Val { let Val::Opt(Some(x)) = v else { panic!() }; ps_to(x) }
fn ops_from(v: &Val) -> Val { Val::Opt(Some(Box::new(ps_from(v)))) }
"""
# the proxy of a type of the crate is a type of the standard library
PI = """#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, Debug, Clone, Default)] pub struct Loc { pub n: u8 }
impl Model for Loc {
fn schema() -> S { S::Struct(Arc::new(StructS { name: "Loc".into(), kind: Kind::Named, fields: vec![FieldS::new("n", S::U(1))], transparent: false, proxy: None })) }
fn to_val(&self) -> Val { Val::Tup(vec![self.n.to_val()]) }
fn from_val(v: &Val) -> Self { Loc { n: Model::from_val(&v.items()[0]) } } }
impl From<&Loc> for u16 { fn from(x: &Loc) -> u16 { x.n as u16 + 300 } }
impl From<&u16> for Loc { fn from(x: &u16) -> Loc { Loc { n: x.wrapping_sub(300) as u8 } } }
fn pi_to(v: &Val) -> Val { let Val::U(x) = v.items()[0] else { panic!() }; Val::U(x + 300) }
fn pi_from(v: &Val) -> Val { let Val::U(x) = v else { panic!() }; Val::Tup(vec![Val::U((*x as u16).wrapping_sub(300) as u8 as u128)]) }
"""
TYPES["Loc"] = ("Loc { n: 4 }", "Val::Tup(vec![Val::U(4)])", "Loc { n: 5 }", "Val::Tup(vec![Val::U(5)])")
PROXIES = {
    "u8": ("PU", PU, "ProxyS { ty: Arc::new(S::Lazy(pu_schema)), to: pu_to, from: pu_from }"),
    "Option<u8>": ("PU", PU, "ProxyS { ty: Arc::new(S::Lazy(pu_schema)), to: opu_to, from: opu_from }"),
    "String": ("PS", PS, "ProxyS { ty: Arc::new(S::Lazy(ps_schema)), to: ps_to, from: ps_from }"),
    "Option<String>": ("PS", PS, "ProxyS { ty: Arc::new(S::Lazy(ps_schema)), to: ops_to, from: ops_from }"),
    "Loc": ("u16", PI, "ProxyS { ty: Arc::new(S::U(2)), to: pi_to, from: pi_from }"),
}


class O:
    """The attributes of a field: R, S, D (default), E (default =), W (default_with), N, P."""

    def __init__(self, code, name=None):
        self.code, self.name = code, name

    def field(self, name, ty, vis="pub ", style=0, container=""):
        """The field, and what it needs besides."""
        c = self.code
        lit, lit_val, fn, fn_val = TYPES.get(ty, (None,) * 4)
        attrs, kw, pre = [], {}, ""
        opt = ty.startswith("Option<")
        missing = None
        if "R" in c:
            new = self.name or f"{name}_new"
            attrs.append(f"rename = {q(new)}")
            kw["rename"] = new
        if "S" in c:
            attrs.append("skip")
        if "D" in c:
            attrs.append("default")
            missing = "zero"
        if "E" in c:
            attrs.append(f"default = {q(lit)}")
            missing = lit_val
        if "W" in c:
            attrs.append(f'default_with = "with_{name}"')
            pre += f"fn with_{name}() -> {ty} {{ {fn} }}\n"
            if missing is None:
                missing = fn_val
        if "N" in c:
            attrs.append("serialize_none_as_null")
        if "P" in c:
            p, code, schema = PROXIES[ty]
            attrs.append(f"proxy = {q(p)}")
            kw["proxy"] = schema
            pre += code if ty != "Loc" else ""
        z = f"<{ty} as Model>::schema().zero()" if not opt else "Val::none()"
        if missing == "zero":
            missing = z
        if missing is None and "d" in container:
            missing = z
        if "S" in c:
            kw["skip"] = missing if missing and any(x in c for x in "DEW") else z
        elif missing:
            kw["missing"] = missing
        if opt and ("N" in c or "n" in container) and "P" not in c:
            kw["null"] = True
        text = spell(attrs, style)
        return F(name, ty, attrs=text, vis=vis, **kw), pre


def spell(attrs, style=0):
    """The same attributes written down in different ways."""
    if not attrs:
        return ""
    if style == 0:
        return f"#[nserde({', '.join(attrs)})]"
    if style == 1:
        return " ".join(f"#[nserde({a})]" for a in attrs)
    if style == 2:
        return f"#[nserde({', '.join(reversed(attrs))})]"
    if style == 3:
        return "".join(f"/// doc, = \"x\"\n#[allow(dead_code)]\n#[ nserde ( {a} ) ]\n" for a in reversed(attrs)) + "#[doc = \"rename = \\\"no\\\"\"]\n"
    return "#[nserde(" + ",".join(a.replace(" = ", "=") for a in attrs) + ")]\n"


NSTYLES = 5


def formats_of(codes):
    """The formats in which these fields mean the same thing everywhere."""
    f = "bjr"
    for ty, c in codes:
        if "P" in c:
            # RON knows no proxies of fields, and the binary format proxies an Option as a whole
            f = "j" if ty.startswith("Option<") else f.replace("r", "")
    return f


DER = {"b": "DeBin, SerBin", "j": "DeJson, SerJson", "r": "DeRon, SerRon"}


def derives(formats):
    return ", ".join(DER[f] for f in formats)


def codes_for(ty, th):
    for r, s, d, n, p in itertools.product(["", "R"], ["", "S"], ["", "D", "E", "W", "DW", "EW"], ["", "N"], ["", "P"]):
        if p and ty not in PROXIES or "E" in d and TYPES[ty][0] is None:
            continue
        if d in ("DW", "EW") and (not th or p):
            continue
        if s and p and ty == "Loc":
            pass
        yield r + s + d + n + p


def build(key, specs, kind="named", container="", head="", style=0, variants=None, **k):
    """A struct or struct variant of fields given as (name, type, O)."""
    fs, pre = [], ""
    vis = "" if kind == "variant" else "pub "
    for name, ty, o in specs:
        f, p = o.field(name, ty, vis=vis, style=style, container=container)
        fs.append(f)
        for part in ([p] if not p else [p]):
            if part and part not in pre:
                pre += part
    # the declarations of proxies are shared by fields
    seen = []
    text = ""
    for name, ty, o in specs:
        if "P" in o.code or ty == "Loc":
            for code in [PROXIES[ty][1]]:
                if code not in seen:
                    seen.append(code)
    for name, ty, o in specs:
        if "W" in o.code:
            text += f"fn with_{name}() -> {ty} {{ {TYPES[ty][2]} }}\n"
    pre = "".join(seen) + text + k.pop("prelude", "")
    formats = k.pop("formats", None) or formats_of([(ty, o.code) for _, ty, o in specs])
    if kind == "variant":
        if any("S" in o.code or "P" in o.code for _, _, o in specs):
            formats = formats.replace("b", "")
        vs = [V("Un"), V("Va", "named", fs), V("Tu", "tuple", [F("", "u8", vis="")])]
        return T(key, "enum", variants=vs, head=head, prelude=pre, formats=formats, derives=derives(formats), mutants=k.pop("mutants", True), **k)
    return T(key, "named", fs, head=head, prelude=pre, formats=formats, derives=derives(formats), mutants=k.pop("mutants", True), **k)


NO = O("")


def single(th):
    """All combinations on one field, in each position."""
    out = []
    n = 0
    tys = list(TYPES) if th else ["u8", "String", "Option<u8>", "Option<String>", "Inner", "Loc"]
    for ty in TYPES:
        for c in codes_for(ty, th):
            few = set(c) <= set("RSDEW") and len(c) <= 1
            if ty not in tys and not few:
                continue
            n += 1
            pos = n % 3
            specs = [("aa", "u8", NO), ("zz", "Option<String>", NO)]
            specs.insert(pos, ("tt", ty, O(c)))
            out.append(build(f"field {ty} {c} at {pos}", specs, style=n % NSTYLES, mutants=th or ty in ("u8", "Option<u8>", "String") or few))
            if th or ty in ("u8", "Option<u8>", "Option<String>") or few:
                out.append(build(f"variant field {ty} {c} at {pos}", specs, kind="variant", style=(n + 1) % NSTYLES))
            if th or few:
                out.append(build(f"only field {ty} {c}", [("tt", ty, O(c))], style=(n + 2) % NSTYLES))
                for p in range(3):
                    if p != pos:
                        sp = [("aa", "u8", NO), ("zz", "Option<String>", NO)]
                        sp.insert(p, ("tt", ty, O(c)))
                        out.append(build(f"field {ty} {c} at {p}", sp, style=p))
                        out.append(build(f"variant field {ty} {c} at {p}", sp, kind="variant", style=p))
    return out


def pairs(th):
    """Two fields with attributes, next to each other and apart."""
    out = []
    opts = ["", "R", "S", "D", "E", "W", "RD", "RS", "SE", "RW"] + (["RE", "SW", "SD", "RSE"] if th else [])
    nopts = opts + ["N", "RN", "NE", "ND"]
    combos = [("u8", "String", opts, opts), ("Option<u8>", "u8", nopts, opts[:6])]
    if th:
        combos += [("Option<String>", "Option<u8>", nopts, nopts), ("Inner", "Option<Inner>", opts, nopts), ("String", "String", opts, opts)]
    n = 0
    for ta, tb, oa, ob in combos:
        for ca, cb in itertools.product(oa, ob):
            n += 1
            out.append(build(f"fields {ta} {ca}, {tb} {cb}", [("aa", ta, O(ca)), ("bb", tb, O(cb))], style=n % NSTYLES))
            if th or n % 2:
                out.append(build(f"fields {ta} {ca}, u8, {tb} {cb}", [("aa", ta, O(ca)), ("mm", "u8", NO), ("bb", tb, O(cb))], style=n % NSTYLES, mutants=th))
            if th or n % 2 == 0:
                out.append(build(f"variant fields {ta} {ca}, {tb} {cb}", [("aa", ta, O(ca)), ("bb", tb, O(cb))], kind="variant", style=n % NSTYLES))
    # three in a row
    for cs in itertools.product(["", "R", "S", "D", "N"] if th else ["", "S", "D"], repeat=3):
        tys = ["u8", "Option<u8>", "String"]
        out.append(build(f"three fields {','.join(cs)}", [(nm, t, O(c)) for nm, t, c in zip(("aa", "bb", "cc"), tys, cs)]))
        out.append(build(f"three options {','.join(cs)}", [(nm, "Option<u8>", O(c)) for nm, c in zip(("aa", "bb", "cc"), cs)]))
        out.append(build(f"three variant fields {','.join(cs)}", [(nm, t, O(c)) for nm, t, c in zip(("aa", "bb", "cc"), tys, cs)], kind="variant"))
    # proxies beside each other
    for cs in itertools.product(["P", "RP", "SP", "DP", ""], repeat=2):
        out.append(build(f"proxies {','.join(cs)}", [("aa", "u8", O(cs[0])), ("bb", "String", O(cs[1])), ("cc", "u8", O("P"))]))
        out.append(build(f"proxied options {','.join(cs)}", [("aa", "Option<u8>", O(cs[0])), ("bb", "Option<String>", O(cs[1])), ("cc", "u8", NO)]))
    return out


def renames(th):
    """Names which are not the field's own."""
    out = []
    new = ["bb", "AA", "type", "a", "aaa", "_", "aa_", "fn", "u8", "s", "None", "null", "Some", "inf", "x1"]
    json_only = ["true", "", " ", "a b", "a-b", "1", "é", "😀", "\"", "\\", "\n", "a:b", "{", "a,b", "\t", "/", "$ref", "{}", "{0}", "'", "#", "//", "\u007f", "\u0001"]
    for n in new + json_only:
        f = "j" if n in json_only else "jr"
        for c in ["R", "RD", "RE", "RS"] if th or n in new[:3] else ["R", "RD"]:
            for ty in ("u8", "Option<u8>"):
                if n == "bb":
                    # the name of another field, which has moved away
                    sp = [("aa", ty, O(c, "bb")), ("bb", "String", O("R", "aa")), ("cc", "u8", NO)]
                else:
                    sp = [("aa", ty, O(c, n)), ("bb", "String", NO), ("cc", "u8", NO)]
                out.append(build(f"renamed {n!r} {ty} {c}", sp, formats=f + ("b" if ty == "u8" else "")))
                if ty == "u8" or th:
                    out.append(build(f"renamed in variant {n!r} {ty} {c}", sp, kind="variant", formats=f))
    # a chain, a swap, and names taken from skipped fields
    for a, b, c in itertools.product([None, "bb", "cc", "xx"], [None, "aa", "cc", "yy"], [None, "aa", "bb", "zz"]):
        names = [a or "aa", b or "bb", c or "cc"]
        if len(set(names)) < 3:
            continue
        sp = [(n, t, O("R" if r else "", r)) for n, t, r in (("aa", "u8", a), ("bb", "u8", b), ("cc", "Option<u8>", c))]
        out.append(build(f"renamed to {','.join(names)}", sp))
        out.append(build(f"renamed in variant to {','.join(names)}", sp, kind="variant"))
    for ty in ("u8", "String", "Option<u8>"):
        sp = [("aa", ty, O("S")), ("bb", "u8", O("R", "aa"))]
        out.append(build(f"renamed to skipped {ty}", sp))
        out.append(build(f"renamed to skipped {ty} before it", sp[::-1]))
        out.append(build(f"renamed in variant to skipped {ty}", sp, kind="variant"))
    return out


def containers(th):
    """Attributes of the container, with and without attributes of its fields."""
    out = []
    heads = [("", ""), ("default", "d"), ("serialize_none_as_null", "n"), ("default, serialize_none_as_null", "dn"), ('crate = "::nanoserde"', ""),
             ('default, crate = "::nanoserde", serialize_none_as_null', "dn"), ('default_with = "whole"', "d"), ("transparent", ""), ('rename = "Else"', "")]
    fo = ["", "R", "S", "D", "E", "W", "N", "RD", "SE", "RN", "EN", "WN"]
    n = 0
    for (h, c), (t, codes) in itertools.product(heads, [("u8", fo), ("Option<u8>", fo), ("String", fo[:6]), ("Inner", fo[:3]), ("Option<String>", fo)] if th else [("u8", fo), ("Option<u8>", fo), ("Inner", fo[:3])]):
        for code in codes:
            n += 1
            head = f"#[nserde({h})]\n" if h else ""
            if n % 3 == 0 and ", " in h:
                head = "".join(f"#[nserde({x})]\n" for x in h.split(", "))
            f = "bj" if "default_with" in h else None
            sp = [("aa", t, O(code)), ("bb", "Option<u8>", NO), ("cc", "String", O("D" if n % 2 else ""))]
            if n % 4 == 1:
                sp = sp[1:] + sp[:1]
            out.append(build(f"{h} on struct of {t} {code}", sp, container=c, head=head, formats=f, style=n % NSTYLES))
            if c != "d" and "default" not in h:
                out.append(build(f"{h} on enum of {t} {code}", sp, kind="variant", container=c, head=head, style=n % NSTYLES, mutants=th or n % 2 == 0))
    # the crate under another name
    pre = "use ::nanoserde as other; mod nanoserde {}"
    for style, h in enumerate(['#[nserde(crate = "other")]\n', '#[nserde(default, crate = "other")]\n', '#[nserde(crate = "other")]\n#[nserde(default)]\n', '#[nserde(crate="self::other",default)]\n', '/// doc\n#[nserde(crate = "super::other2")]\n']):
        p = pre if "other2" not in h else "mod nanoserde {}"
        if "other2" in h:
            h = h.replace("super::other2", "::nanoserde")
        c = "d" if "default" in h else ""
        for t in ("u8", "Option<u8>", "Vec<u8>", "Inner"):
            out.append(build(f"{h.strip()} on struct of {t}", [("aa", t, NO), ("bb", "Option<String>", O("R")), ("cc", "u8", O("S"))], container=c, head=h, prelude=p))
        out.append(T(f"{h.strip()} on tuple struct", "tuple", [F("", "u8"), F("", "String")], head=h, prelude=p))
        out.append(T(f"{h.strip()} on newtype", "tuple", [F("", "u8")], head=h, prelude=p))
        out.append(T(f"{h.strip()} on unit struct", "unit", head=h, prelude=p))
        out.append(T(f"{h.strip()} on empty struct", "named", head=h, prelude=p))
        if not c:
            out.append(T(f"{h.strip()} on enum", "enum", variants=[V("Aa"), V("Bb", "tuple", [F("", "u8", vis=""), F("", "Vec<String>", vis="")]), V("Cc", "named", [F("x", "Option<u8>", vis=""), F("y", "u8", vis="")])], head=h, prelude=p, mutants=True))
            out.append(T(f"{h.strip()} on enum of units", "enum", variants=[V("Aa"), V("Bb")], head=h, prelude=p))
            out.append(T(f"{h.strip()} on generic", "named", [F("a", "T"), F("b", "Vec<T>")], name="G", generics="<T: Clone>", inst="<u8>", head=h, prelude=p + " type T = u8;"))
            out.append(T(f"{h.strip()} on transparent", "tuple", [F("", "u8")], head=h + "#[nserde(transparent)]\n", transparent=True, prelude=p))
    return out


def transparents(th):
    out = []
    tys = ["u8", "String", "Option<u8>", "Vec<u8>", "Inner", "bool", "f64", "(u8, String)", "[u8; 2]", "BTreeMap<String, u8>", "Option<Inner>", "Vec<Inner>", "()", "Box<u8>", "Duration", "BTreeSet<u16>", "i64", "HashMap<String, Inner>"]
    for t in tys:
        for style, h in enumerate(["#[nserde(transparent)]\n", "/// doc\n#[nserde(transparent)]\n#[derive(Debug)]\n", '#[nserde(crate = "::nanoserde", transparent)]\n']):
            if style and not th and t not in ("u8", "Option<u8>"):
                continue
            away = "mod nanoserde {}" if style == 2 else ""
            out.append(T(f"transparent {t} {style}", "tuple", [F("", t)], head=h, prelude=away, transparent=True, mutants=True))
        out.append(T(f"not transparent {t}", "tuple", [F("", t)], mutants=True))
        out.append(T(f"transparent of two {t}", "tuple", [F("", t), F("", "u8")], head="#[nserde(transparent)]\n", transparent=True, mutants=th))
        # within other things
        inner = f"#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon)] #[nserde(transparent)] pub struct N(pub {t});\n" + model_tuple("N", t, True)
        out.append(T(f"transparent {t} in fields", "named", [F("a", "N"), F("b", "Vec<N>"), F("c", "Option<N>") if not t.startswith("Option") and t != "()" else F("c", "u8")], prelude=inner, mutants=True))
        out.append(T(f"transparent {t} in a variant", "enum", variants=[V("Aa", "tuple", [F("", "N", vis="")]), V("Bb", "named", [F("x", "N", vis="")]), V("Cc")], prelude=inner, mutants=th))
        out.append(T(f"transparent {t} in transparent", "tuple", [F("", "N")], prelude=inner, head="#[nserde(transparent)]\n", transparent=True, mutants=th))
    # as the keys of a map
    inner = "#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, PartialEq, Eq, PartialOrd, Ord, Hash)] #[nserde(transparent)] pub struct N(pub String);\n" + model_tuple("N", "String", True)
    out.append(T("transparent keys", "named", [F("a", "BTreeMap<N, u8>"), F("b", "HashMap<N, N>")], prelude=inner, mutants=True))
    return out


def model_tuple(n, t, transparent):
    ty = f"S::Lazy(<{t} as Model>::schema)" if not t.startswith("Option<") else f"opt_lazy::<{t}>()"
    return (f"impl Model for {n} {{ fn schema() -> S {{ S::Struct(Arc::new(StructS {{ name: {q(n)}.into(), kind: Kind::Tuple, fields: vec![FieldS::new(\"0\", {ty})], transparent: {str(transparent).lower()}, proxy: None }})) }}\n"
            f"fn to_val(&self) -> Val {{ Val::Tup(vec![self.0.to_val()]) }}\nfn from_val(v: &Val) -> Self {{ {n}(Model::from_val(&v.items()[0])) }} }}\n")


def variants(th):
    """Renamed variants."""
    out = []
    kinds = {
        "u": lambda n, a, j: V(n, "unit", attrs=a, json=j),
        "1": lambda n, a, j: V(n, "tuple", [F("", "u8", vis="")], attrs=a, json=j),
        "2": lambda n, a, j: V(n, "tuple", [F("", "u8", vis=""), F("", "String", vis="")], attrs=a, json=j),
        "s": lambda n, a, j: V(n, "named", [F("x", "u8", vis=""), F("y", "Option<u8>", vis="")], attrs=a, json=j),
    }
    for seq in itertools.product("u12s" if th else "u1s", repeat=3):
        names = ["Aa", "Bb", "Cc"]
        for ren in ([["xx", None, None], [None, "xx", None], [None, None, "xx"], ["Bb", "Cc", "Aa"], ["Bb", "Aa", None], ["aa", "bb", "cc"], [None, "Cc", "Bb"]]):
            vs = []
            for k, n, r in zip(seq, names, ren):
                vs.append(kinds[k](n, f"#[nserde(rename = {q(r)})]" if r else "", r or n))
            out.append(T(f"variants {''.join(seq)} as {ren}", "enum", variants=vs, formats="bj", derives=derives("bj"), mutants=th or len(set(seq)) > 1))
    for n in ["", " ", "a b", "é", "\"", "\\", "\n", "type", "{}", "1", "null", "Vec", "{", "\u0001"]:
        for k in kinds:
            for style, a in enumerate([f"#[nserde(rename = {q(n)})]", f"/// doc\n#[nserde(rename={q(n)})]\n#[allow(dead_code)]"]):
                out.append(T(f"variant {k} renamed {n!r} {style}", "enum", variants=[kinds["u"]("Aa", "", "Aa"), kinds[k]("Bb", a, n), kinds["s"]("Cc", "", "Cc")], formats="bj", derives=derives("bj"), mutants=style == 0))
    # together with attributes of its fields
    for c in ["R", "S", "D", "E", "W", "N", "RD", "RN", "EN"]:
        for t in ("u8", "Option<u8>"):
            for h, cont in (("", ""), ("#[nserde(serialize_none_as_null)]\n", "n")):
                f, pre = O(c).field("x", t, vis="", container=cont)
                g, _ = NO.field("y", "Option<u8>", vis="", container=cont)
                fmt = "j" if "S" in c else "bj"
                out.append(T(f"renamed variant {h.strip()} with {t} {c}", "enum", variants=[V("Aa"), V("Bb", "named", [f, g], attrs='#[nserde(rename = "b-b")]', json="b-b"), V("Cc", "named", [F("x", "u8", vis="")])],
                             head=h, prelude=pre, formats=fmt, derives=derives(fmt), mutants=True))
    return out


def tuples(th):
    """Skipped and proxied items of tuple structs."""
    out = []
    for n in (1, 2, 3):
        for mask in itertools.product((0, 1), repeat=n):
            for tys in ([["u8", "String", "Option<u8>"], ["Option<String>", "u8", "Inner"], ["Inner", "Vec<u8>", "bool"]] if th else [["u8", "String", "Option<u8>"], ["Option<String>", "u8", "Inner"]]):
                fs = []
                for m, t in zip(mask, tys):
                    z = f"<{t} as Model>::schema().zero()" if not t.startswith("Option") else "Val::none()"
                    fs.append(F("", t, attrs="#[nserde(skip)]" if m else "", skip=z if m else None))
                out.append(T(f"tuple struct of {','.join(tys[:n])} skipping {mask}", "tuple", fs, formats="br", derives=derives("br"), mutants=True))
                if any(mask):
                    out.append(T(f"tuple struct of {','.join(tys[:n])} skipping {mask} beside docs", "tuple", [F(f.name, f.ty, attrs="/// doc\n" + f.attrs, skip=f.skip) for f in fs], formats="br", derives=derives("br"), mutants=th))
        for mask in itertools.product(("", "P", "S"), repeat=n):
            if "P" not in mask:
                continue
            fs = []
            for m, t in zip(mask, ["u8", "String", "u8"]):
                z = f"<{t} as Model>::schema().zero()"
                fs.append(F("", t, attrs={"": "", "P": f"#[nserde(proxy = {q(PROXIES[t][0])})]", "S": "#[nserde(skip)]"}[m], skip=z if m == "S" else None, proxy=PROXIES[t][2] if m == "P" else None))
            out.append(T(f"tuple struct of proxies {mask}", "tuple", fs, formats="b", derives=derives("b"), prelude=PU + PS))
    return out


CPROXIES = [
    ("struct as a string", "named", [F("a", "u8"), F("b", "String")], None, "String", "S::Str",
     "impl From<&A> for String { fn from(x: &A) -> String { format!(\"{}:{}\", x.a, x.b) } }\nimpl From<&String> for A { fn from(x: &String) -> A { match x.split_once(':') { Some((a, b)) => A { a: a.parse().unwrap_or(0), b: b.into() }, None => A { a: 0, b: x.clone() } } } }",
     "|v| { let i = v.items(); let (Val::U(a), Val::Str(b)) = (&i[0], &i[1]) else { panic!() }; Val::Str(format!(\"{a}:{b}\")) }",
     "|v| { let Val::Str(x) = v else { panic!() }; let (a, b) = match x.split_once(':') { Some((a, b)) => (a.parse::<u8>().unwrap_or(0), b.to_string()), None => (0, x.clone()) }; Val::Tup(vec![Val::U(a as u128), Val::Str(b)]) }"),
    ("tuple struct as a struct", "tuple", [F("", "u8"), F("", "bool")], None, "Inner", "S::Lazy(<Inner as Model>::schema)",
     "impl From<&A> for Inner { fn from(x: &A) -> Inner { Inner { p: x.0, q: if x.1 { \"y\".into() } else { String::new() } } } }\nimpl From<&Inner> for A { fn from(x: &Inner) -> A { A(x.p, x.q == \"y\") } }",
     "|v| { let i = v.items(); Val::Tup(vec![i[0].clone(), Val::str(if i[1] == Val::Bool(true) { \"y\" } else { \"\" })]) }",
     "|v| { let i = v.items(); Val::Tup(vec![i[0].clone(), Val::Bool(i[1] == Val::str(\"y\"))]) }"),
    ("enum as a number", "enum", None, [V("Aa"), V("Bb", "tuple", [F("", "u8", vis="")])], "u16", "S::U(2)",
     "impl From<&A> for u16 { fn from(x: &A) -> u16 { match x { A::Aa => 0, A::Bb(n) => *n as u16 + 1 } } }\nimpl From<&u16> for A { fn from(x: &u16) -> A { if *x == 0 { A::Aa } else { A::Bb((*x - 1) as u8) } } }",
     "|v| { let Val::Enum(k, i) = v else { panic!() }; if *k == 0 { Val::U(0) } else { let Val::U(n) = i[0] else { panic!() }; Val::U(n + 1) } }",
     "|v| { let Val::U(x) = v else { panic!() }; if *x == 0 { Val::Enum(0, vec![]) } else { Val::Enum(1, vec![Val::U((x - 1) & 255)]) } }"),
    ("unit struct as a bool", "unit", [], None, "bool", "S::Bool",
     "impl From<&A> for bool { fn from(_: &A) -> bool { true } }\nimpl From<&bool> for A { fn from(_: &bool) -> A { A } }",
     "|_| Val::Bool(true)", "|_| Val::Tup(vec![])"),
    ("newtype as a list", "tuple", [F("", "u8")], None, "Vec<A2>", "S::Seq(Arc::new(S::Lazy(<A2 as Model>::schema)))",
     "#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon)] #[nserde(transparent)] pub struct A2(pub u8);\n" + model_tuple("A2", "u8", True) +
     "impl From<&A> for Vec<A2> { fn from(x: &A) -> Vec<A2> { vec![A2(x.0), A2(1)] } }\nimpl From<&Vec<A2>> for A { fn from(x: &Vec<A2>) -> A { A(x.first().map_or(0, |x| x.0)) } }",
     "|v| Val::Seq(vec![v.clone(), Val::Tup(vec![Val::U(1)])])", "|v| { let Val::Seq(x) = v else { panic!() }; x.first().cloned().unwrap_or(Val::Tup(vec![Val::U(0)])) }"),
    ("struct as an enum", "named", [F("a", "Option<u8>")], None, "AE", "S::Lazy(ae)",
     "#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon)] pub enum AE { No, Yes(u8) }\nfn ae() -> S { S::Enum(Arc::new(EnumS { name: \"AE\".into(), variants: vec![VariantS { name: \"No\".into(), json: \"No\".into(), kind: Kind::Unit, fields: vec![] }, VariantS { name: \"Yes\".into(), json: \"Yes\".into(), kind: Kind::Tuple, fields: vec![FieldS::new(\"0\", S::U(1))] }], proxy: None })) }\n"
     "impl From<&A> for AE { fn from(x: &A) -> AE { match x.a { None => AE::No, Some(n) => AE::Yes(n) } } }\nimpl From<&AE> for A { fn from(x: &AE) -> A { A { a: match x { AE::No => None, AE::Yes(n) => Some(*n) } } } }",
     "|v| match &v.items()[0] { Val::Opt(Some(x)) => Val::Enum(1, vec![(**x).clone()]), _ => Val::Enum(0, vec![]) }",
     "|v| { let Val::Enum(k, i) = v else { panic!() }; Val::Tup(vec![if *k == 0 { Val::none() } else { Val::Opt(Some(Box::new(i[0].clone()))) }]) }"),
]


def proxies(th):
    """Proxies of whole types, alone and within other types."""
    out = []
    for key, kind, fs, vs, p, schema, pre, to, frm in CPROXIES:
        for style, h in enumerate([f"#[nserde(proxy = {q(p)})]\n", f"/// doc\n#[nserde(proxy={q(p)})]\n#[derive(Debug)]\n", f"#[nserde(crate = \"::nanoserde\", proxy = {q(p)})]\n"]):
            prox = f"Some(ProxyS {{ ty: Arc::new({schema}), to: {to}, from: {frm} }})"
            away = "mod nanoserde {}\n" if style == 2 and "#[derive" not in pre else ""
            a = T(f"{key} {style}", kind, fs, vs, head=h, prelude=away + pre, proxy=prox, formats="bj", derives=derives("bj"), mutants=True)
            out.append(a)
            if style:
                continue
            before = pre + "\n" + a.item() + "\n" + a.model() + "\n"
            for c in ["", "R", "D"] if th else ["", "R"]:
                f, _ = O(c).field("aa", "A") if c != "D" else (None, None)
                f and out.append(T(f"{key} in a field {c}", "named", [f, F("bb", "Option<A>"), F("cc", "Vec<A>")], name="Ou", prelude=before, formats="bj", derives=derives("bj"), mutants=True))
            out.append(T(f"{key} in variants", "enum", variants=[V("Va", "tuple", [F("", "A", vis=""), F("", "u8", vis="")]), V("Vb", "named", [F("x", "Option<A>", vis=""), F("y", "A", vis="")])], name="Ou", prelude=before, formats="bj", derives=derives("bj"), mutants=True))
            out.append(T(f"{key} in a transparent newtype", "tuple", [F("", "A")], name="Ou", head="#[nserde(transparent)]\n", transparent=True, prelude=before, formats="bj", derives=derives("bj"), mutants=True))
    return out


def spellings(th):
    """Every order of three attributes, in one list and in several."""
    out = []
    sets = [("Option<u8>", ['rename = "nn"', "default", "serialize_none_as_null"], "RDN"), ("Option<u8>", ['rename = "nn"', 'default = "5"', "serialize_none_as_null"], "REN"),
            ("String", ['rename = "nn"', 'default_with = "with_aa"', "serialize_none_as_null"], "RWN"), ("u8", ['rename = "nn"', "default = 7", "skip"], "RES"), ("u8", ['rename = "nn"', 'default = "7"'], "RE"),
            ("u8", ['rename = "nn"', "default = 7"], "RE"), ("u8", ["default", 'rename = "nn"', 'proxy = "PU"'], "RDP"), ("i32", ['default = "-5"', "serialize_none_as_null", 'rename = "nn"'], "REN")]
    for ty, attrs, code in sets:
        for perm in itertools.permutations(attrs):
            n = len(perm)
            for cuts in range(2 ** (n - 1)):
                groups, cur = [], [perm[0]]
                for i in range(1, n):
                    if cuts >> (i - 1) & 1:
                        groups.append(cur)
                        cur = []
                    cur.append(perm[i])
                groups.append(cur)
                text = " ".join(f"#[nserde({', '.join(g)})]" for g in groups)
                for kind in ("named", "variant"):
                    t = build(f"{kind} {ty} {text}", [("aa", ty, O(code, "nn")), ("bb", "u8", NO)], kind=kind, mutants=kind == "named" and cuts == 0)
                    (t.fields if kind == "named" else t.variants[1].fields)[0].attrs = text
                    out.append(t)
    return out


def all_types(th):
    out = single(th) + pairs(th) + renames(th) + containers(th) + transparents(th) + variants(th) + tuples(th) + proxies(th) + spellings(th)
    seen, uniq = {}, []
    for t in out:
        k = (t.item(), t.prelude, t.formats)
        if k in seen:
            continue
        seen[k] = 1
        uniq.append(t)
    names = {}
    for t in uniq:
        k = t.key
        if k in names:
            names[k] += 1
            t.key = f"{k} ({names[k]})"
        else:
            names[k] = 1
    return uniq


def bounds(th, n):
    return (f"every combination of rename, skip, default, default =, default_with, serialize_none_as_null and proxy on a field of {len(TYPES) if th else 6} types, in every position of a struct and a struct variant; pairs and triples of fields with attributes; "
            "renames to other names, swapped and rotated; default, default_with, serialize_none_as_null, transparent, crate and proxy on the container combined with those of fields; renamed variants of every kind; every order and grouping of three attributes; "
            "values with one deviation, documents with every pattern of present, absent, null and mistyped fields, one token deleted, inserted, replaced, repeated or swapped")


if __name__ == "__main__":
    for th in (False, True):
        ts = all_types(th)
        print(len(ts), sum(t.mutants for t in ts))
