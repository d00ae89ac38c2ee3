//! Values and types as data: `Val` is what a value denotes, `S` is the shape of
//! a type as far as the formats can see it, `Model` ties a Rust type to both.

use nanoserde::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};
use std::str::Chars;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    Unit,
    Bool(bool),
    U(u128),
    I(i128),
    /// floats as bits
    F32(u32),
    F64(u64),
    Str(String),
    Dur(u64, u32),
    Time(u64, u32),
    Opt(Option<Box<Val>>),
    Seq(Vec<Val>),
    /// sorted
    Set(Vec<Val>),
    /// sorted by key
    Map(Vec<(Val, Val)>),
    /// arrays, tuples and structs
    Tup(Vec<Val>),
    Enum(usize, Vec<Val>),
}

impl Val {
    pub fn str(s: &str) -> Val {
        Val::Str(s.to_string())
    }
    pub fn none() -> Val {
        Val::Opt(None)
    }
    pub fn some(v: Val) -> Val {
        Val::Opt(Some(Box::new(v)))
    }
    pub fn is_none(&self) -> bool {
        matches!(self, Val::Opt(None))
    }
    pub fn items(&self) -> &[Val] {
        match self {
            Val::Seq(v) | Val::Set(v) | Val::Tup(v) | Val::Enum(_, v) => v,
            _ => panic!("items of {self:?}"),
        }
    }
}

/// Another type standing in for a field or container in JSON and binary.
#[derive(Clone)]
pub struct ProxyS {
    pub ty: Arc<S>,
    pub to: fn(&Val) -> Val,
    pub from: fn(&Val) -> Val,
}

#[derive(Clone)]
pub struct FieldS {
    pub name: String,
    pub json: String,
    pub ron: String,
    pub ty: Arc<S>,
    pub skip: bool,
    /// the value a skipped field is read as
    pub skip_val: Option<Val>,
    /// the value a missing field takes, if it may be missing
    pub missing: Option<Val>,
    /// None is written as null
    pub null: bool,
    pub proxy: Option<ProxyS>,
}

impl FieldS {
    pub fn new(name: &str, ty: S) -> FieldS {
        // a field which is an Option may be left out
        let missing = if ty.is_opt() { Some(Val::none()) } else { None };
        FieldS {
            name: name.into(),
            json: name.into(),
            ron: name.into(),
            ty: Arc::new(ty),
            skip: false,
            skip_val: None,
            missing,
            null: false,
            proxy: None,
        }
    }
    pub fn rename(mut self, n: &str) -> Self {
        self.json = n.into();
        self.ron = n.into();
        self
    }
    pub fn skipped(mut self, v: Val) -> Self {
        self.skip = true;
        self.skip_val = Some(v);
        self
    }
    pub fn missing(mut self, v: Val) -> Self {
        self.missing = Some(v);
        self
    }
    pub fn null(mut self) -> Self {
        self.null = true;
        self
    }
    pub fn proxy(mut self, p: ProxyS) -> Self {
        self.proxy = Some(p);
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Named,
    Tuple,
    /// `struct A;`, `struct A {}`, `struct A()` or a unit variant
    Unit,
}

#[derive(Clone)]
pub struct StructS {
    pub name: String,
    pub kind: Kind,
    pub fields: Vec<FieldS>,
    pub transparent: bool,
    pub proxy: Option<ProxyS>,
}

#[derive(Clone)]
pub struct VariantS {
    pub name: String,
    pub json: String,
    pub kind: Kind,
    pub fields: Vec<FieldS>,
}

#[derive(Clone)]
pub struct EnumS {
    pub name: String,
    pub variants: Vec<VariantS>,
    pub proxy: Option<ProxyS>,
}

#[derive(Clone)]
pub enum S {
    Unit,
    Bool,
    /// unsigned, width in bytes; usize is U(8)
    U(u8),
    I(u8),
    F32,
    F64,
    Str,
    Dur,
    Time,
    Opt(Arc<S>),
    Seq(Arc<S>),
    /// the flag: order is up to a hasher
    Set(Arc<S>, bool),
    Map(Arc<S>, Arc<S>, bool),
    Arr(usize, Arc<S>),
    /// the contents of a slice, which can only be written
    Slice(Arc<S>),
    Tup(Vec<Arc<S>>),
    Struct(Arc<StructS>),
    Enum(Arc<EnumS>),
    Lazy(fn() -> S),
}

impl S {
    pub fn resolve(&self) -> S {
        match self {
            S::Lazy(f) => f().resolve(),
            s => s.clone(),
        }
    }
    pub fn is_opt(&self) -> bool {
        matches!(self, S::Opt(_))
    }
    /// Whether every value is written as JSON null at times.
    pub fn json_nullable(&self) -> bool {
        match self.resolve() {
            S::Unit | S::Opt(_) => true,
            S::Struct(st) => {
                if let Some(p) = &st.proxy {
                    return p.ty.json_nullable();
                }
                st.transparent && st.fields.len() == 1 && st.fields[0].ty.json_nullable()
            }
            S::Enum(e) => e.proxy.as_ref().is_some_and(|p| p.ty.json_nullable()),
            _ => false,
        }
    }
    /// The order in which parts are written is up to a hasher somewhere.
    pub fn unordered(&self) -> bool {
        self.any(0, &|s| matches!(s, S::Set(_, true) | S::Map(_, _, true)))
    }
    pub fn any(&self, depth: usize, f: &dyn Fn(&S) -> bool) -> bool {
        if f(self) {
            return true;
        }
        if depth > 12 {
            return false;
        }
        let d = depth + 1;
        let field = |x: &FieldS| match &x.proxy {
            Some(p) => p.ty.any(d, f) || x.ty.any(d, f),
            None => x.ty.any(d, f),
        };
        match self {
            S::Opt(t) | S::Seq(t) | S::Set(t, _) | S::Arr(_, t) | S::Slice(t) => t.any(d, f),
            S::Map(k, v, _) => k.any(d, f) || v.any(d, f),
            S::Tup(ts) => ts.iter().any(|t| t.any(d, f)),
            S::Struct(st) => st.fields.iter().any(field),
            S::Enum(e) => e.variants.iter().any(|v| v.fields.iter().any(field)),
            S::Lazy(g) => depth < 6 && g().any(d, f),
            _ => false,
        }
    }
    /// All values as default would have them.
    pub fn zero(&self) -> Val {
        match self {
            S::Unit => Val::Unit,
            S::Bool => Val::Bool(false),
            S::U(_) => Val::U(0),
            S::I(_) => Val::I(0),
            S::F32 => Val::F32(0),
            S::F64 => Val::F64(0),
            S::Str => Val::str(""),
            S::Dur => Val::Dur(0, 0),
            S::Time => Val::Time(0, 0),
            S::Opt(_) => Val::none(),
            S::Seq(_) | S::Slice(_) => Val::Seq(vec![]),
            S::Set(..) => Val::Set(vec![]),
            S::Map(..) => Val::Map(vec![]),
            S::Arr(n, t) => Val::Tup((0..*n).map(|_| t.zero()).collect()),
            S::Tup(ts) => Val::Tup(ts.iter().map(|t| t.zero()).collect()),
            S::Struct(st) => Val::Tup(st.fields.iter().map(|f| f.ty.zero()).collect()),
            S::Enum(e) => Val::Enum(0, e.variants[0].fields.iter().map(|f| f.ty.zero()).collect()),
            S::Lazy(f) => f().zero(),
        }
    }
}

pub trait Model: Sized + 'static {
    fn schema() -> S;
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}

pub fn sc<T: Model>() -> Arc<S> {
    Arc::new(T::schema())
}

macro_rules! model_int {
    ($($t:ident $s:ident $c:ty),*) => {$(
        impl Model for $t {
            fn schema() -> S { S::$s(std::mem::size_of::<$t>() as u8) }
            fn to_val(&self) -> Val { Val::$s(*self as $c) }
            fn from_val(v: &Val) -> Self { match v { Val::$s(x) => *x as $t, _ => panic!("{v:?}") } }
        }
    )*};
}
model_int!(u8 U u128, u16 U u128, u32 U u128, u64 U u128, u128 U u128, usize U u128,
           i8 I i128, i16 I i128, i32 I i128, i64 I i128, i128 I i128);

impl Model for f32 {
    fn schema() -> S {
        S::F32
    }
    fn to_val(&self) -> Val {
        Val::F32(self.to_bits())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::F32(x) => f32::from_bits(*x),
            _ => panic!("{v:?}"),
        }
    }
}
impl Model for f64 {
    fn schema() -> S {
        S::F64
    }
    fn to_val(&self) -> Val {
        Val::F64(self.to_bits())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::F64(x) => f64::from_bits(*x),
            _ => panic!("{v:?}"),
        }
    }
}
impl Model for bool {
    fn schema() -> S {
        S::Bool
    }
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Bool(x) => *x,
            _ => panic!("{v:?}"),
        }
    }
}
impl Model for () {
    fn schema() -> S {
        S::Unit
    }
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Self {}
}
impl Model for String {
    fn schema() -> S {
        S::Str
    }
    fn to_val(&self) -> Val {
        Val::Str(self.clone())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Str(x) => String::from_utf8(roomy(x.clone().into_bytes())).unwrap(),
            _ => panic!("{v:?}"),
        }
    }
}
impl Model for Duration {
    fn schema() -> S {
        S::Dur
    }
    fn to_val(&self) -> Val {
        Val::Dur(self.as_secs(), self.subsec_nanos())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Dur(s, n) => Duration::new(*s, *n),
            _ => panic!("{v:?}"),
        }
    }
}
/// Marks the nanoseconds of a time before the epoch.
pub const EARLY: u32 = 1 << 31;
impl Model for SystemTime {
    fn schema() -> S {
        S::Time
    }
    fn to_val(&self) -> Val {
        match self.duration_since(SystemTime::UNIX_EPOCH) {
            Ok(d) => Val::Time(d.as_secs(), d.subsec_nanos()),
            Err(e) => Val::Time(e.duration().as_secs(), e.duration().subsec_nanos() | EARLY),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Time(s, n) if n & EARLY != 0 => SystemTime::UNIX_EPOCH - Duration::new(*s, *n & !EARLY),
            Val::Time(s, n) => SystemTime::UNIX_EPOCH + Duration::new(*s, *n),
            _ => panic!("{v:?}"),
        }
    }
}
impl<T: Model> Model for Option<T> {
    fn schema() -> S {
        S::Opt(sc::<T>())
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Opt(x) => x.as_ref().map(|x| T::from_val(x)),
            _ => panic!("{v:?}"),
        }
    }
}
impl<T: Model> Model for Box<T> {
    fn schema() -> S {
        T::schema()
    }
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(v: &Val) -> Self {
        Box::new(T::from_val(v))
    }
}
impl<T: Model> Model for Vec<T> {
    fn schema() -> S {
        S::Seq(sc::<T>())
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        roomy(v.items().iter().map(T::from_val).collect())
    }
}
impl<T: Model> Model for LinkedList<T> {
    fn schema() -> S {
        S::Seq(sc::<T>())
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        v.items().iter().map(T::from_val).collect()
    }
}
thread_local! {
    /// Whether values are built the other way round: maps and sets from their
    /// last item on, vectors and strings with room to spare.
    pub static OTHER_WAY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// How many of them get much room.
    pub static ROOMY: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
fn build<X, C: FromIterator<X> + Extend<X>>(it: impl DoubleEndedIterator<Item = X>) -> C {
    if !OTHER_WAY.with(|o| o.get()) {
        return it.collect();
    }
    let mut out: C = std::iter::empty().collect();
    for x in it.rev() {
        out.extend(Some(x));
    }
    out
}
fn roomy<T>(mut v: Vec<T>) -> Vec<T> {
    if OTHER_WAY.with(|o| o.get()) {
        let left = ROOMY.with(|r| r.replace(r.get().saturating_sub(1)));
        v.reserve(if left > 0 { 16_384 / std::mem::size_of::<T>().max(1) } else { 7 });
    }
    v
}

pub fn set_val(mut v: Vec<Val>) -> Val {
    v.sort();
    Val::Set(v)
}
pub fn map_val(mut v: Vec<(Val, Val)>) -> Val {
    v.sort();
    Val::Map(v)
}
impl<T: Model + Ord> Model for BTreeSet<T> {
    fn schema() -> S {
        S::Set(sc::<T>(), false)
    }
    fn to_val(&self) -> Val {
        set_val(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        build(v.items().iter().map(T::from_val))
    }
}
impl<T: Model + std::hash::Hash + Eq> Model for HashSet<T> {
    fn schema() -> S {
        S::Set(sc::<T>(), true)
    }
    fn to_val(&self) -> Val {
        set_val(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        build(v.items().iter().map(T::from_val))
    }
}
fn map_items(v: &Val) -> &[(Val, Val)] {
    match v {
        Val::Map(m) => m,
        _ => panic!("{v:?}"),
    }
}
impl<K: Model + Ord, V: Model> Model for BTreeMap<K, V> {
    fn schema() -> S {
        S::Map(sc::<K>(), sc::<V>(), false)
    }
    fn to_val(&self) -> Val {
        map_val(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect())
    }
    fn from_val(v: &Val) -> Self {
        build(map_items(v).iter().map(|(k, v)| (K::from_val(k), V::from_val(v))))
    }
}
impl<K: Model + Eq + std::hash::Hash, V: Model, H: std::hash::BuildHasher + Default + 'static> Model for HashMap<K, V, H> {
    fn schema() -> S {
        S::Map(sc::<K>(), sc::<V>(), true)
    }
    fn to_val(&self) -> Val {
        map_val(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect())
    }
    fn from_val(v: &Val) -> Self {
        build(map_items(v).iter().map(|(k, v)| (K::from_val(k), V::from_val(v))))
    }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn schema() -> S {
        S::Arr(N, sc::<T>())
    }
    fn to_val(&self) -> Val {
        Val::Tup(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        let it = v.items();
        assert_eq!(it.len(), N);
        std::array::from_fn(|i| T::from_val(&it[i]))
    }
}
macro_rules! model_tup {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Model),*> Model for ($($t,)*) {
            fn schema() -> S { S::Tup(vec![$(sc::<$t>()),*]) }
            fn to_val(&self) -> Val { Val::Tup(vec![$(self.$i.to_val()),*]) }
            fn from_val(v: &Val) -> Self { let it = v.items(); ($($t::from_val(&it[$i]),)*) }
        }
    };
}
model_tup!(A 0, B 1);
model_tup!(A 0, B 1, C 2);
model_tup!(A 0, B 1, C 2, D 3);

/// A slice, which can be written but not read.
pub struct SliceOf<T>(pub Vec<T>);
impl<T: Model> Model for SliceOf<T> {
    fn schema() -> S {
        S::Slice(sc::<T>())
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.0.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        SliceOf(v.items().iter().map(T::from_val).collect())
    }
}
impl<T: SerBin> SerBin for SliceOf<T> {
    fn ser_bin(&self, s: &mut Vec<u8>) {
        self.0[..].ser_bin(s)
    }
}
impl<T: SerJson> SerJson for SliceOf<T> {
    fn ser_json(&self, d: usize, s: &mut SerJsonState) {
        self.0[..].ser_json(d, s)
    }
}
impl<T: SerRon> SerRon for SliceOf<T> {
    fn ser_ron(&self, d: usize, s: &mut SerRonState) {
        self.0[..].ser_ron(d, s)
    }
}

// --------------------------------------------------------- declaring types

#[macro_export]
macro_rules! derived {
    ($(#[$m:meta])* struct $n:ident { $($f:ident : [$($t:tt)*]),* $(,)? }) => {
        #[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, PartialEq, Debug, Clone)]
        $(#[$m])*
        pub struct $n { $(pub $f: $($t)*),* }
        impl Model for $n {
            fn schema() -> S {
                S::Struct(Arc::new(StructS {
                    name: stringify!($n).into(),
                    kind: Kind::Named,
                    fields: vec![$($crate::schema::FieldS::new(stringify!($f), $crate::lazy!($($t)*))),*],
                    transparent: false,
                    proxy: None,
                }))
            }
            fn to_val(&self) -> Val { Val::Tup(vec![$(self.$f.to_val()),*]) }
            #[allow(unused_mut, unused_variables)]
            fn from_val(v: &Val) -> Self {
                let mut it = v.items().iter();
                $n { $($f: Model::from_val(it.next().unwrap())),* }
            }
        }
    };
    ($(#[$m:meta])* struct $n:ident ( $([$($t:tt)*] $i:tt),+ $(,)? )) => {
        #[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, PartialEq, Debug, Clone)]
        $(#[$m])*
        pub struct $n ( $(pub $($t)*),+ );
        impl Model for $n {
            fn schema() -> S {
                S::Struct(Arc::new(StructS {
                    name: stringify!($n).into(),
                    kind: Kind::Tuple,
                    fields: vec![$($crate::schema::FieldS::new(stringify!($i), $crate::lazy!($($t)*))),*],
                    transparent: false,
                    proxy: None,
                }))
            }
            fn to_val(&self) -> Val { Val::Tup(vec![$(self.$i.to_val()),*]) }
            fn from_val(v: &Val) -> Self {
                let mut it = v.items().iter();
                $n ( $(<$($t)* as Model>::from_val(it.next().unwrap())),* )
            }
        }
    };
    ($(#[$m:meta])* enum $n:ident { $($v:ident $(($([$($t:tt)*] $b:ident),*))? $({$($f:ident : [$($u:tt)*]),*})?),* $(,)? }) => {
        #[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon, PartialEq, Debug, Clone)]
        $(#[$m])*
        pub enum $n { $($v $(($($($t)*),*))? $({$($f: $($u)*),*})?),* }
        impl Model for $n {
            #[allow(unused_mut, unused_assignments)]
            fn schema() -> S {
                S::Enum(Arc::new(EnumS {
                    name: stringify!($n).into(),
                    variants: vec![$({
                        let mut kind = Kind::Unit;
                        let mut fields: Vec<FieldS> = vec![];
                        $(kind = Kind::Tuple; $(fields.push(FieldS::new(stringify!($b), $crate::lazy!($($t)*)));)*)?
                        $(kind = Kind::Named; $(fields.push(FieldS::new(stringify!($f), $crate::lazy!($($u)*)));)*)?
                        VariantS { name: stringify!($v).into(), json: stringify!($v).into(), kind, fields }
                    }),*],
                    proxy: None,
                }))
            }
            fn to_val(&self) -> Val {
                #[allow(non_camel_case_types, dead_code, clippy::enum_variant_names)]
                enum Idx { $($v),* }
                match self {
                    $(Self::$v $(($($b),*))? $({$($f),*})? =>
                        Val::Enum(Idx::$v as usize, vec![$($($b.to_val()),*)? $($($f.to_val()),*)?])),*
                }
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn from_val(v: &Val) -> Self {
                let Val::Enum(k, items) = v else { panic!("{v:?}") };
                let mut n = 0usize;
                let mut it = items.iter();
                $(
                    if *k == n {
                        return Self::$v $(($(<$($t)* as Model>::from_val(it.next().unwrap())),*))?
                            $({$($f: Model::from_val(it.next().unwrap())),*})?;
                    }
                    n += 1;
                )*
                panic!("variant {k}")
            }
        }
    };
}

/// The schema of a field, expanded at once where that keeps `Option` visible.
#[macro_export]
macro_rules! lazy {
    (Option < $($t:tt)*) => { $crate::schema::opt_lazy::<Option<$($t)*>() };
    ($($t:tt)*) => { $crate::schema::S::Lazy(<$($t)* as Model>::schema) };
}
pub trait OptInner {
    fn inner() -> S;
}
impl<T: Model> OptInner for Option<T> {
    fn inner() -> S {
        T::schema()
    }
}
pub fn opt_lazy<O: OptInner>() -> S {
    S::Opt(Arc::new(S::Lazy(O::inner)))
}

// ------------------------------------------------------------------- ops

#[derive(Clone, Debug)]
pub struct TErr {
    pub line: usize,
    pub col: usize,
    pub msg: String,
    pub kind: &'static str,
    /// what the reason names, and the token it names
    pub what: String,
    pub tok: String,
    pub shown: String,
}

impl From<DeJsonErr> for TErr {
    fn from(e: DeJsonErr) -> TErr {
        let mut tok = String::new();
        let (kind, what) = match &e.msg {
            DeJsonErrReason::UnexpectedKey(w) => ("key", w.clone()),
            DeJsonErrReason::UnexpectedToken(t, w) => {
                tok = format!("{t:?}");
                ("token", w.clone())
            }
            DeJsonErrReason::MissingKey(w) => ("missing", w.clone()),
            DeJsonErrReason::NoSuchEnum(w) => ("enum", w.clone()),
            DeJsonErrReason::OutOfRange(w) => ("range", w.clone()),
            DeJsonErrReason::WrongType(w) => ("type", w.clone()),
            DeJsonErrReason::CannotParse(w) => ("parse", w.clone()),
            _ => ("other", String::new()),
        };
        TErr { line: e.line, col: e.col, msg: format!("{:?}", e.msg), kind, what, tok, shown: format!("{e}") }
    }
}
impl From<DeRonErr> for TErr {
    fn from(e: DeRonErr) -> TErr {
        let mut tok = String::new();
        let (kind, what) = match &e.msg {
            DeRonErrReason::UnexpectedKey(w) => ("key", w.clone()),
            DeRonErrReason::UnexpectedToken(t, w) => {
                tok = format!("{t:?}");
                ("token", w.clone())
            }
            DeRonErrReason::MissingKey(w) => ("missing", w.clone()),
            DeRonErrReason::NoSuchEnum(w) => ("enum", w.clone()),
            DeRonErrReason::OutOfRange(w) => ("range", w.clone()),
            DeRonErrReason::WrongType(w) => ("type", w.clone()),
            DeRonErrReason::CannotParse(w) => ("parse", w.clone()),
            _ => ("other", String::new()),
        };
        TErr { line: e.line, col: e.col, msg: format!("{:?}", e.msg), kind, what, tok, shown: format!("{e}") }
    }
}

#[derive(Clone, Debug)]
pub struct BErr {
    pub o: usize,
    /// what was wanted and what there was
    pub length: Option<(usize, usize)>,
    pub variant: Option<isize>,
    pub msg: String,
}
impl From<DeBinErr> for BErr {
    fn from(e: DeBinErr) -> BErr {
        let mut b = BErr { o: e.o, length: None, variant: None, msg: format!("{e}") };
        match e.msg {
            DeBinErrReason::Length { expected_length, actual_length } => b.length = Some((expected_length, actual_length)),
            DeBinErrReason::UnknownDiscriminant(d) => b.variant = Some(d),
            _ => {}
        }
        b
    }
}

/// A reader which stands between two values.
pub enum TState<'a> {
    J(DeJsonState, Chars<'a>),
    R(DeRonState, Chars<'a>),
}
impl<'a> TState<'a> {
    pub fn json(s: &'a str) -> Result<Self, TErr> {
        let mut st = DeJsonState::default();
        let mut it = s.chars();
        st.next(&mut it);
        st.next_tok(&mut it)?;
        Ok(TState::J(st, it))
    }
    pub fn ron(s: &'a str) -> Result<Self, TErr> {
        let mut st = DeRonState::default();
        let mut it = s.chars();
        st.next(&mut it);
        st.next_tok(&mut it)?;
        Ok(TState::R(st, it))
    }
    pub fn at_end(&self) -> bool {
        match self {
            TState::J(s, _) => s.tok == DeJsonTok::Eof,
            TState::R(s, _) => s.tok == DeRonTok::Eof,
        }
    }
}

/// What a decoder which stopped leaves behind.
pub struct Stop {
    /// bytes of the input not handed out yet
    pub unread: usize,
    pub line: usize,
    pub col: usize,
}

#[derive(Clone, Copy)]
pub struct BinOps {
    pub ser: fn(&Val) -> Vec<u8>,
    pub ser_into: fn(&Val, &mut Vec<u8>),
    pub de: fn(&[u8]) -> Result<Val, BErr>,
    pub de_at: fn(&[u8], &mut usize) -> Result<Val, BErr>,
    /// decode and drop
    pub probe: fn(&[u8]) -> bool,
}

#[derive(Clone, Copy)]
pub struct TextOps {
    pub ser: fn(&Val) -> String,
    pub ser_into: fn(&Val, String) -> String,
    pub de: fn(&str) -> Result<Val, TErr>,
    pub de_state: fn(&str) -> (Result<Val, TErr>, Stop),
    pub de_next: fn(&mut TState) -> Result<Val, TErr>,
    pub probe: fn(&str) -> bool,
}

#[derive(Clone)]
pub struct Ops {
    pub name: String,
    pub schema: Arc<S>,
    pub bin: Option<BinOps>,
    pub json: Option<TextOps>,
    pub ron: Option<TextOps>,
}

pub fn bin_ops<T: Model + SerBin + DeBin>() -> BinOps {
    BinOps {
        ser: |v| T::from_val(v).serialize_bin(),
        ser_into: |v, o| T::from_val(v).ser_bin(o),
        de: |b| Ok(T::deserialize_bin(b)?.to_val()),
        de_at: |b, o| Ok(T::de_bin(o, b)?.to_val()),
        probe: |b| T::deserialize_bin(b).is_ok(),
    }
}
pub fn json_ops<T: Model + SerJson + DeJson>() -> TextOps {
    TextOps {
        ser: |v| T::from_val(v).serialize_json(),
        ser_into: |v, o| {
            let mut s = SerJsonState::new(o);
            T::from_val(v).ser_json(0, &mut s);
            s.out
        },
        de: |b| Ok(T::deserialize_json(b)?.to_val()),
        de_state: |b| {
            let mut s = DeJsonState::default();
            let mut i = b.chars();
            s.next(&mut i);
            let r = match s.next_tok(&mut i) {
                Ok(()) => T::de_json(&mut s, &mut i),
                Err(e) => Err(e),
            };
            let stop = Stop { unread: i.as_str().len(), line: s.line, col: s.col };
            (r.map(|v| v.to_val()).map_err(|e| e.into()), stop)
        },
        de_next: |t| match t {
            TState::J(s, i) => Ok(T::de_json(s, i)?.to_val()),
            _ => panic!("json op on a ron state"),
        },
        probe: |b| T::deserialize_json(b).is_ok(),
    }
}
/// Writes a value into an output which holds something already.
struct After<T>(String, T);
impl<T: SerRon> SerRon for After<T> {
    fn ser_ron(&self, d: usize, s: &mut SerRonState) {
        s.out.push_str(&self.0);
        self.1.ser_ron(d, s)
    }
}
pub fn ron_ops<T: Model + SerRon + DeRon>() -> TextOps {
    TextOps {
        ser: |v| T::from_val(v).serialize_ron(),
        ser_into: |v, o| After(o, T::from_val(v)).serialize_ron(),
        de: |b| Ok(T::deserialize_ron(b)?.to_val()),
        de_state: |b| {
            let mut s = DeRonState::default();
            let mut i = b.chars();
            s.next(&mut i);
            let r = match s.next_tok(&mut i) {
                Ok(()) => T::de_ron(&mut s, &mut i),
                Err(e) => Err(e),
            };
            let stop = Stop { unread: i.as_str().len(), line: s.line, col: s.col };
            (r.map(|v| v.to_val()).map_err(|e| e.into()), stop)
        },
        de_next: |t| match t {
            TState::R(s, i) => Ok(T::de_ron(s, i)?.to_val()),
            _ => panic!("ron op on a json state"),
        },
        probe: |b| T::deserialize_ron(b).is_ok(),
    }
}
pub fn ops<T: Model + SerBin + DeBin + SerJson + DeJson + SerRon + DeRon>(name: &str) -> Ops {
    Ops {
        name: name.into(),
        schema: sc::<T>(),
        bin: Some(bin_ops::<T>()),
        json: Some(json_ops::<T>()),
        ron: Some(ron_ops::<T>()),
    }
}
pub fn ops_bin<T: Model + SerBin + DeBin>(name: &str) -> Ops {
    Ops { name: name.into(), schema: sc::<T>(), bin: Some(bin_ops::<T>()), json: None, ron: None }
}
