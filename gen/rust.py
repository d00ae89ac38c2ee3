"""Declarations of types as data, and the Rust text which declares each of them
together with the schema it should have."""
import json


def q(s):
    """A Rust string literal."""
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif ord(c) < 32:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


class F:
    """A field: what is written down, and what it should mean."""

    def __init__(self, name, ty, attrs="", vis="pub ", rename=None, skip=None, missing=None, null=False, proxy=None, mty=None, required=False):
        self.name, self.ty, self.attrs, self.vis = name, ty, attrs, vis
        self.rename, self.skip, self.missing, self.null, self.proxy = rename, skip, missing, null, proxy
        # the same type where the notation matters to the macro only
        self.mty = mty or ty
        self.required = required

    def decl(self, named):
        a = self.attrs + (" " if self.attrs and not self.attrs.endswith("\n") else "")
        return f"{a}{self.vis}{self.name}: {self.ty}" if named else f"{a}{self.vis}{self.ty}"

    def schema(self, i, named):
        n = self.name if named else str(i)
        t = self.mty.replace(" ", "")
        if t.startswith("Option<") and not self.required:
            ty = f"opt_lazy::<{self.mty}>()"
        else:
            ty = f"S::Lazy(<{self.mty} as Model>::schema)"
        s = f"FieldS::new({q(n)}, {ty})"
        if self.rename is not None:
            s += f".rename({q(self.rename)})"
        if self.skip is not None:
            s += f".skipped({self.skip})"
        if self.missing is not None:
            s += f".missing({self.missing})"
        if self.null:
            s += ".null()"
        if self.proxy:
            s += f".proxy({self.proxy})"
        return s


class V:
    """A variant: kind is unit, tuple or named; a unit may be written in three ways."""

    def __init__(self, name, kind="unit", fields=(), attrs="", tail="", json=None, ron=None):
        self.name, self.kind, self.fields, self.attrs, self.tail = name, kind, list(fields), attrs, tail
        self.json = name if json is None else json
        self.ron = ron or name

    def decl(self):
        a = self.attrs + (" " if self.attrs and not self.attrs.endswith("\n") else "")
        return a + self.name + body(self.kind, self.fields) + self.tail


def body(kind, fields):
    if kind == "unit":
        return ""
    if kind == "tuple":
        return "(" + ", ".join(f.decl(False) for f in fields) + ")"
    return " { " + ", ".join(f.decl(True) for f in fields) + " }"


RUST_KIND = {"unit": "Kind::Unit", "tuple": "Kind::Tuple", "named": "Kind::Named"}
ALL6 = "DeBin, SerBin, DeJson, SerJson, DeRon, SerRon"


class T:
    """A type declaration."""

    def __init__(self, key, kind, fields=None, variants=None, name="A", head="", vis="pub ", generics="", where="", inst="",
                 prelude="", derives=ALL6, formats="bjr", transparent=False, proxy=None, mutants=False, decl=None, fmt="{}",
                 title=None, layout=True):
        self.key, self.kind, self.fields, self.variants = key, kind, fields or [], variants
        self.name, self.head, self.vis, self.generics, self.where, self.inst = name, head, vis, generics, where, inst
        self.prelude, self.derives, self.formats = prelude, derives, formats
        self.transparent, self.proxy, self.mutants = transparent, proxy, mutants
        self._decl, self.fmt, self.title, self.layout = decl, fmt, title, layout

    def declaration(self):
        """The item without its derive attribute."""
        if self._decl:
            return self._decl
        w = f" where {self.where} " if self.where else ""
        if self.variants is not None:
            vs = ", ".join(v.decl() for v in self.variants)
            return f"{self.head}{self.vis}enum {self.name}{self.generics}{w} {{ {vs} }}"
        b = body(self.kind, self.fields)
        semi = "" if self.kind == "named" else ";"
        if self.kind == "named":
            return f"{self.head}{self.vis}struct {self.name}{self.generics}{w}{b}"
        return f"{self.head}{self.vis}struct {self.name}{self.generics}{b}{w}{semi}"

    def item(self):
        return self.fmt.format(f"#[derive({self.derives})]\n{self.declaration()}")

    def source(self):
        out = ["use super::*;"]
        if self.prelude:
            out.append(self.prelude)
        out.append(self.item())
        out.append(self.model())
        o = f"Ops {{ name: {q(self.key)}.into(), schema: sc::<{self.name}{self.inst}>(), "
        for c, n in (("b", "bin"), ("j", "json"), ("r", "ron")):
            o += f"{n}: " + (f"Some({n}_ops::<{self.name}{self.inst}>())" if c in self.formats else "None") + ", "
        o += "}"
        out.append(f"pub fn it() -> Item {{ Item {{ ops: {o}, decl: {q(self.title or self.item())}, mutants: {str(self.mutants).lower()}, layout: {str(self.layout).lower()} }} }}")
        return "\n".join(out) + "\n"

    def model(self):
        n = self.name
        if self.variants is not None:
            vs = ", ".join(
                f"VariantS {{ name: {q(v.ron)}.into(), json: {q(v.json)}.into(), kind: {self.vkind(v)}, fields: vec![{', '.join(f.schema(i, v.kind == 'named') for i, f in enumerate(v.fields))}] }}"
                for v in self.variants)
            sch = f"S::Enum(Arc::new(EnumS {{ name: {q(n)}.into(), variants: vec![{vs}], proxy: {self.proxy or 'None'} }}))"
            to, frm = "", ""
            for k, v in enumerate(self.variants):
                pat = ", ".join(f"{f.name if v.kind == 'named' else i}: b{i}" for i, f in enumerate(v.fields))
                to += f"Self::{v.name} {{ {pat} }} => Val::Enum({k}, vec![{', '.join(f'Model::to_val(b{i})' for i in range(len(v.fields)))}]),\n"
                ex = ", ".join(f"{f.name if v.kind == 'named' else i}: Model::from_val(&i[{i}])" for i, f in enumerate(v.fields))
                frm += f"{k} => Self::{v.name} {{ {ex} }},\n"
            to = f"match self {{ {to} }}" if self.variants else "match *self {}"
            frm = f"let Val::Enum(k, i) = v else {{ panic!() }}; let _ = i; match k {{ {frm} _ => panic!() }}"
        else:
            fs = self.fields
            named = self.kind == "named"
            sk = "Kind::Unit" if not fs else RUST_KIND[self.kind]
            sch = (f"S::Struct(Arc::new(StructS {{ name: {q(n)}.into(), kind: {sk}, fields: vec![{', '.join(f.schema(i, named) for i, f in enumerate(fs))}], "
                   f"transparent: {str(self.transparent).lower()}, proxy: {self.proxy or 'None'} }}))")
            to = f"Val::Tup(vec![{', '.join(f'Model::to_val(&self.{f.name if named else i})' for i, f in enumerate(fs))}])"
            ex = ", ".join(f"{f.name if named else i}: Model::from_val(&i[{i}])" for i, f in enumerate(fs))
            frm = f"let i = v.items(); let _ = i; Self {{ {ex} }}"
        return (f"impl Model for {n}{self.inst} {{\nfn schema() -> S {{ {sch} }}\nfn to_val(&self) -> Val {{ {to} }}\n"
                f"fn from_val(v: &Val) -> Self {{ {frm} }}\n}}")

    def vkind(self, v):
        # a variant with brackets is not a unit, however empty
        return RUST_KIND[v.kind]


HEADER = """#![allow(warnings)]
use mc::schema::*;
use mc::shapes::Item;
use nanoserde::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};
use std::sync::Arc;
use std::time::{Duration, SystemTime};

#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Clone, Default)]
pub struct Inner {
    pub p: u8,
    pub q: String,
}
impl Model for Inner {
    fn schema() -> S {
        S::Struct(Arc::new(StructS {
            name: "Inner".into(),
            kind: Kind::Named,
            fields: vec![FieldS::new("p", S::U(1)), FieldS::new("q", S::Str)],
            transparent: false,
            proxy: None,
        }))
    }
    fn to_val(&self) -> Val {
        Val::Tup(vec![self.p.to_val(), self.q.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        let i = v.items();
        Inner { p: Model::from_val(&i[0]), q: Model::from_val(&i[1]) }
    }
}
"""


def crate_source(types):
    """A crate holding some of the types; returns the text and which lines belong to which type."""
    text = HEADER
    spans = []
    for k, t in enumerate(types):
        start = text.count("\n") + 1
        text += f"mod t{k} {{\n{t.source()}}}\n"
        spans.append((start, text.count("\n"), t))
    text += "pub fn items() -> Vec<Item> {\nvec![" + ", ".join(f"t{k}::it()" for k in range(len(types))) + "]\n}\n"
    return text, spans
