//! The types the checks range over.

use crate::schema::*;
use crate::*;
use nanoserde::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};
use std::sync::Arc;
use std::time::{Duration, SystemTime};

derived! { struct Pt { x: [i32], y: [u8] } }
derived! { struct One { only: [u16] } }
derived! { struct Opts { a: [Option<u8>], b: [String], c: [Option<String>], d: [Option<Vec<u8>>] } }
derived! { struct Deep { p: [Pt], v: [Vec<Pt>], t: [(u8, Pt)], m: [BTreeMap<String, Pt>], o: [Option<Pt>], z: [Box<One>] } }
derived! { struct Mix { f: [f32], d: [f64], s: [String], b: [bool], t: [Duration], e: [E], a: [[u8; 2]], u: [u64], i: [i64] } }
derived! { struct New([String] 0) }
derived! { struct NewU([u8] 0) }
derived! { struct Duo([u8] 0, [String] 1) }
derived! { struct Trio([Option<u8>] 0, [Pt] 1, [Vec<E>] 2) }
derived! { enum E { A, B([u8] a), C([i16] a, [String] b), D { x: [u32], y: [Option<bool>] }, F } }
derived! { enum Plain { Red, Green, Blue } }
derived! { enum Wrap { P([Pt] a), N([New] a), V([Vec<u8>] a), T([(u8, u8)] a), O { o: [Option<Pt>] }, M([BTreeMap<String, u8>] a) } }
derived! { struct List { v: [u8], next: [Option<Box<List>>] } }
derived! { enum Tree { Leaf, Node([Box<Tree>] a, [u8] v, [Box<Tree>] b), Many { kids: [Vec<Tree>] } } }
derived! { struct Sets { b: [BTreeSet<u16>], l: [LinkedList<String>], k: [BTreeMap<u8, bool>] } }
derived! { struct Hashes { b: [HashSet<u16>], k: [HashMap<String, u8>] } }
derived! { struct Arrs { a: [[Option<u8>; 2]], b: [[Pt; 2]], c: [[[u8; 2]; 2]] } }
derived! { struct Empty { } }

/// Generic, so by hand.
#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, PartialEq, Debug, Clone)]
pub struct Gn<A, B> {
    pub a: A,
    pub b: Vec<B>,
}
impl<A: Model, B: Model> Model for Gn<A, B> {
    fn schema() -> S {
        S::Struct(Arc::new(StructS {
            name: "Gn".into(),
            kind: Kind::Named,
            fields: vec![FieldS::new("a", S::Lazy(A::schema)), FieldS::new("b", S::Seq(sc::<B>()))],
            transparent: false,
            proxy: None,
        }))
    }
    fn to_val(&self) -> Val {
        Val::Tup(vec![self.a.to_val(), self.b.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        Gn { a: A::from_val(&v.items()[0]), b: Model::from_val(&v.items()[1]) }
    }
}

#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, PartialEq, Debug, Clone)]
pub struct UnitSt;
impl Model for UnitSt {
    fn schema() -> S {
        S::Struct(Arc::new(StructS {
            name: "UnitSt".into(),
            kind: Kind::Unit,
            fields: vec![],
            transparent: false,
            proxy: None,
        }))
    }
    fn to_val(&self) -> Val {
        Val::Tup(vec![])
    }
    fn from_val(_: &Val) -> Self {
        UnitSt
    }
}

macro_rules! big_enum {
    ($($v:ident)*) => {
        #[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, PartialEq, Debug, Clone, Copy)]
        #[repr(u16)]
        pub enum Big { $($v),* }
        impl Model for Big {
            fn schema() -> S {
                S::Enum(Arc::new(EnumS {
                    name: "Big".into(),
                    variants: [$(stringify!($v)),*].iter().map(|n| VariantS {
                        name: n.to_string(), json: n.to_string(), kind: Kind::Unit, fields: vec![],
                    }).collect(),
                    proxy: None,
                }))
            }
            fn to_val(&self) -> Val { Val::Enum(*self as u16 as usize, vec![]) }
            fn from_val(v: &Val) -> Self {
                const ALL: &[Big] = &[$(Big::$v),*];
                match v { Val::Enum(k, _) => ALL[*k], _ => panic!() }
            }
        }
    };
}
big_enum! {
    V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19 V20 V21 V22 V23 V24 V25 V26 V27 V28
    V29 V30 V31 V32 V33 V34 V35 V36 V37 V38 V39 V40 V41 V42 V43 V44 V45 V46 V47 V48 V49 V50 V51 V52 V53 V54
    V55 V56 V57 V58 V59 V60 V61 V62 V63 V64 V65 V66 V67 V68 V69 V70 V71 V72 V73 V74 V75 V76 V77 V78 V79 V80
    V81 V82 V83 V84 V85 V86 V87 V88 V89 V90 V91 V92 V93 V94 V95 V96 V97 V98 V99 V100 V101 V102 V103 V104 V105
    V106 V107 V108 V109 V110 V111 V112 V113 V114 V115 V116 V117 V118 V119 V120 V121 V122 V123 V124 V125 V126
    V127 V128 V129 V130 V131 V132 V133 V134 V135 V136 V137 V138 V139 V140 V141 V142 V143 V144 V145 V146 V147
    V148 V149 V150 V151 V152 V153 V154 V155 V156 V157 V158 V159 V160 V161 V162 V163 V164 V165 V166 V167 V168
    V169 V170 V171 V172 V173 V174 V175 V176 V177 V178 V179 V180 V181 V182 V183 V184 V185 V186 V187 V188 V189
    V190 V191 V192 V193 V194 V195 V196 V197 V198 V199 V200 V201 V202 V203 V204 V205 V206 V207 V208 V209 V210
    V211 V212 V213 V214 V215 V216 V217 V218 V219 V220 V221 V222 V223 V224 V225 V226 V227 V228 V229 V230 V231
    V232 V233 V234 V235 V236 V237 V238 V239 V240 V241 V242 V243 V244 V245 V246 V247 V248 V249 V250 V251 V252
    V253 V254 V255 V256 V257 V258 V259 V260 V261 V262 V263 V264 V265 V266 V267 V268 V269 V270 V271 V272 V273
    V274 V275 V276 V277 V278 V279 V280 V281 V282 V283 V284 V285 V286 V287 V288 V289 V290 V291 V292 V293 V294
    V295 V296 V297 V298 V299
}

macro_rules! zoo {
    ($o:ident: $($t:ty),* $(,)?) => { vec![$($o::<$t>(stringify!($t))),*] };
}

/// Types with all three formats.
pub fn all3() -> Vec<Ops> {
    zoo![ops:
        u8, u16, u32, u64, usize, i8, i16, i32, i64, f32, f64, bool, String, Duration, SystemTime,
        Option<u8>, Option<String>, Option<Vec<u8>>, Option<(u8, u8)>, Option<f64>, Option<E>, Option<Pt>,
        Box<u16>, Vec<u8>, Vec<u32>, Vec<i64>, Vec<f32>, Vec<String>, Vec<bool>, Vec<Option<i32>>, Vec<Vec<u8>>, Vec<(u8, bool)>,
        Vec<Pt>, Vec<E>, Vec<Duration>,
        LinkedList<i16>, LinkedList<Vec<u8>>, BTreeSet<u8>, BTreeSet<String>, HashSet<u8>, HashSet<String>,
        BTreeMap<String, u32>, BTreeMap<String, Option<u8>>, BTreeMap<u8, String>, BTreeMap<String, Vec<Pt>>,
        HashMap<String, Vec<u8>>, HashMap<u16, bool>, BTreeMap<(u8, u8), u8>,
        [u8; 0], [u8; 1], [u8; 2], [u8; 3], [String; 2], [[u8; 2]; 2], [Option<u8>; 2], [Vec<u8>; 2], [E; 2],
        (u8, u16), (i8, String), (u8, String, bool), (i8, u16, u32, u64), (Option<u8>, Vec<u8>), ((u8, u8), [u8; 2]),
        (E, E), (f32, f64), (String, String, String),
        Pt, One, Opts, Deep, Mix, New, NewU, Duo, Trio, E, Plain, Wrap, List, Tree, Sets, Hashes, Arrs, Empty, Big,
        Gn<u8, String>, Gn<Option<u8>, Pt>, Gn<Vec<E>, Option<u8>>,
        Vec<New>, BTreeMap<String, E>, Option<Vec<Option<u8>>>, Vec<[u8; 2]>, Vec<BTreeMap<String, u8>>,
        UnitSt, Vec<UnitSt>, (), Vec<()>, (u8, ()), [(); 2],
        LinkedList<()>, Vec<[u8; 0]>, BTreeSet<()>, HashSet<()>, BTreeMap<u8, ()>, Vec<Empty>, Option<UnitSt>,
        (u8, LinkedList<()>), Vec<Box<u8>>, Option<Box<Pt>>, LinkedList<E>
    ]
}
/// Types for binary only.
pub fn bin_only() -> Vec<Ops> {
    zoo![ops_bin: u128, i128, Vec<u128>, (i128, u128), Option<Option<u8>>, Option<()>, Option<Option<()>>, Vec<Option<Option<bool>>>]
}
pub fn bins() -> Vec<Ops> {
    let mut v = all3();
    v.extend(bin_only());
    v
}
pub fn by_name(names: &[&str]) -> Vec<Ops> {
    let all = bins();
    names
        .iter()
        .map(|n| all.iter().find(|o| o.name == *n).unwrap_or_else(|| panic!("type {n}")).clone())
        .collect()
}
/// Slices can only be written.
pub fn slice_bin<T: Model + SerBin>(name: &str) -> (String, S, fn(&Val) -> Vec<u8>) {
    (name.into(), <SliceOf<T>>::schema(), |v| SliceOf::<T>::from_val(v).serialize_bin())
}
pub fn slice_json<T: Model + SerJson>(name: &str) -> (String, S, fn(&Val) -> String) {
    (name.into(), <SliceOf<T>>::schema(), |v| SliceOf::<T>::from_val(v).serialize_json())
}
