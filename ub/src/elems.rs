//! Elements of every kind of memory, whose decoding fails or panics at any
//! place: alone, in arrays, and in arrays within everything else.

use crate::engine::Ctx;
use crate::{task, Task};
use nanoserde::*;
use std::cell::Cell;
use std::collections::{BTreeMap, LinkedList};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::Chars;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Before,
    After,
    PanicBefore,
    PanicAfter,
}
thread_local! {
    static LEFT: Cell<usize> = const { Cell::new(usize::MAX) };
    static FAULT: Cell<Fault> = const { Cell::new(Fault::None) };
}

/// A fault planned for this element.
fn fault() -> Fault {
    let n = LEFT.get();
    LEFT.set(n.wrapping_sub(1));
    if n == 0 {
        FAULT.get()
    } else {
        Fault::None
    }
}

pub trait Make {
    fn make(n: u8) -> Self;
    fn see(&self) -> u8;
}

macro_rules! elem {
    ($($t:ident),*) => {$(
        impl DeBin for $t {
            fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
                let bad = DeBinErr::new(*o, 1, 0);
                match fault() {
                    Fault::None => Ok(Self::make(u8::de_bin(o, d)?)),
                    Fault::Before => Err(bad),
                    Fault::After => u8::de_bin(o, d).and(Err(bad)),
                    Fault::PanicBefore => panic!("planned"),
                    Fault::PanicAfter => {
                        let _kept = Self::make(u8::de_bin(o, d)?);
                        panic!("planned")
                    }
                }
            }
        }
        impl SerBin for $t {
            fn ser_bin(&self, o: &mut Vec<u8>) {
                let f = fault();
                if f == Fault::PanicBefore { panic!("planned") }
                self.see().ser_bin(o);
                if f == Fault::PanicAfter { panic!("planned") }
            }
        }
        elem!(text $t DeJson de_json DeJsonState DeJsonErr SerJson ser_json SerJsonState);
        elem!(text $t DeRon de_ron DeRonState DeRonErr SerRon ser_ron SerRonState);
    )*};
    (text $t:ident $de:ident $de_x:ident $st:ident $err:ident $ser:ident $ser_x:ident $out:ident) => {
        impl $de for $t {
            fn $de_x(s: &mut $st, i: &mut Chars) -> Result<Self, $err> {
                match fault() {
                    Fault::None => Ok(Self::make(u8::$de_x(s, i)?)),
                    Fault::Before => Err(s.err_parse("planned")),
                    Fault::After => {
                        u8::$de_x(s, i)?;
                        Err(s.err_parse("planned"))
                    }
                    Fault::PanicBefore => panic!("planned"),
                    Fault::PanicAfter => {
                        let _kept = Self::make(u8::$de_x(s, i)?);
                        panic!("planned")
                    }
                }
            }
        }
        impl $ser for $t {
            fn $ser_x(&self, d: usize, s: &mut $out) {
                let f = fault();
                if f == Fault::PanicBefore { panic!("planned") }
                self.see().$ser_x(d, s);
                if f == Fault::PanicAfter { panic!("planned") }
            }
        }
    };
}

/// On the heap.
pub struct Heap(Box<u8>);
/// On the heap, with room to spare.
pub struct Text(String);
/// A byte beside padding, at an address of 64.
#[repr(align(64))]
pub struct Wide(u8);
/// Nothing at all, but it has a destructor.
pub struct Zero;
/// Only some bit patterns are valid, and one of them stands for None.
#[derive(Clone, Copy)]
#[repr(u8)]
pub enum Niche {
    A = 10,
    B = 20,
    C = 30,
}
/// A borrow counter and a shared count.
pub struct Shared(std::rc::Rc<Cell<u8>>);
/// Larger than a page.
pub struct Huge([u16; 3000]);

impl Make for Heap {
    fn make(n: u8) -> Self { Heap(Box::new(n)) }
    fn see(&self) -> u8 { *self.0 }
}
impl Make for Text {
    fn make(n: u8) -> Self {
        let mut s = n.to_string();
        s.reserve(10);
        Text(s)
    }
    fn see(&self) -> u8 { self.0.parse().unwrap() }
}
impl Make for Wide {
    fn make(n: u8) -> Self { Wide(n) }
    fn see(&self) -> u8 {
        assert_eq!(self as *const _ as usize % 64, 0);
        self.0
    }
}
thread_local! { static ZEROS: Cell<i64> = const { Cell::new(0) }; }
impl Drop for Zero {
    fn drop(&mut self) { ZEROS.set(ZEROS.get() - 1) }
}
impl Make for Zero {
    fn make(_: u8) -> Self {
        ZEROS.set(ZEROS.get() + 1);
        Zero
    }
    fn see(&self) -> u8 { 0 }
}
impl Make for Niche {
    fn make(n: u8) -> Self { [Niche::A, Niche::B, Niche::C][n as usize % 3] }
    fn see(&self) -> u8 {
        match self {
            Niche::A => 0,
            Niche::B => 1,
            Niche::C => 2,
        }
    }
}
impl Make for Shared {
    fn make(n: u8) -> Self { Shared(std::rc::Rc::new(Cell::new(n))) }
    fn see(&self) -> u8 { self.0.get() }
}
impl Make for Huge {
    fn make(n: u8) -> Self { Huge([n as u16; 3000]) }
    fn see(&self) -> u8 { self.0[2999] as u8 }
}
elem!(Heap, Text, Wide, Zero, Niche, Shared, Huge);

#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon)]
pub struct Named<T> {
    a: T,
    b: [T; 2],
    c: Option<T>,
}
#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon)]
pub struct Pair<T>([T; 2], T);
#[derive(DeBin, SerBin, DeJson, SerJson, DeRon, SerRon)]
pub enum Any<T> {
    One(T),
    Two { a: [T; 1], b: T },
    No,
}

/// A value in all formats, and how often an element is decoded in it.
pub trait Seen: Sized {
    fn build(n: &mut u8) -> Self;
    fn look(&self, v: &mut Vec<u8>);
}
macro_rules! leaf {
    ($($t:ident),*) => {$(
        impl Seen for $t {
            fn build(n: &mut u8) -> Self { *n += 1; Self::make(*n % 3) }
            fn look(&self, v: &mut Vec<u8>) { v.push(self.see()) }
        }
    )*};
}
leaf!(Heap, Text, Wide, Zero, Niche, Shared, Huge);
impl<T: Seen, const N: usize> Seen for [T; N] {
    fn build(n: &mut u8) -> Self { std::array::from_fn(|_| T::build(n)) }
    fn look(&self, v: &mut Vec<u8>) { self.iter().for_each(|x| x.look(v)) }
}
impl<T: Seen> Seen for Vec<T> {
    fn build(n: &mut u8) -> Self { (0..2).map(|_| T::build(n)).collect() }
    fn look(&self, v: &mut Vec<u8>) { self.iter().for_each(|x| x.look(v)) }
}
impl<T: Seen> Seen for LinkedList<T> {
    fn build(n: &mut u8) -> Self { (0..2).map(|_| T::build(n)).collect() }
    fn look(&self, v: &mut Vec<u8>) { self.iter().for_each(|x| x.look(v)) }
}
impl<T: Seen> Seen for Option<T> {
    fn build(n: &mut u8) -> Self { Some(T::build(n)) }
    fn look(&self, v: &mut Vec<u8>) { self.iter().for_each(|x| x.look(v)) }
}
impl<T: Seen> Seen for Box<T> {
    fn build(n: &mut u8) -> Self { Box::new(T::build(n)) }
    fn look(&self, v: &mut Vec<u8>) { (**self).look(v) }
}
impl<T: Seen> Seen for BTreeMap<u8, T> {
    fn build(n: &mut u8) -> Self { (0..2).map(|k| (k, T::build(n))).collect() }
    fn look(&self, v: &mut Vec<u8>) { self.values().for_each(|x| x.look(v)) }
}
impl<A: Seen, B: Seen> Seen for (A, B) {
    fn build(n: &mut u8) -> Self { (A::build(n), B::build(n)) }
    fn look(&self, v: &mut Vec<u8>) {
        self.0.look(v);
        self.1.look(v)
    }
}
impl<A: Seen, B: Seen, C: Seen> Seen for (A, B, C) {
    fn build(n: &mut u8) -> Self { (A::build(n), B::build(n), C::build(n)) }
    fn look(&self, v: &mut Vec<u8>) {
        self.0.look(v);
        self.1.look(v);
        self.2.look(v)
    }
}
impl<A: Seen, B: Seen, C: Seen, D: Seen> Seen for (A, B, C, D) {
    fn build(n: &mut u8) -> Self { (A::build(n), B::build(n), C::build(n), D::build(n)) }
    fn look(&self, v: &mut Vec<u8>) {
        self.0.look(v);
        self.1.look(v);
        self.2.look(v);
        self.3.look(v)
    }
}
impl<T: Seen> Seen for Named<T> {
    fn build(n: &mut u8) -> Self { Named { a: T::build(n), b: Seen::build(n), c: Some(T::build(n)) } }
    fn look(&self, v: &mut Vec<u8>) {
        self.a.look(v);
        self.b.look(v);
        self.c.look(v)
    }
}
impl<T: Seen> Seen for Pair<T> {
    fn build(n: &mut u8) -> Self { Pair(Seen::build(n), T::build(n)) }
    fn look(&self, v: &mut Vec<u8>) {
        self.0.look(v);
        self.1.look(v)
    }
}
impl<T: Seen> Seen for Any<T> {
    fn build(n: &mut u8) -> Self {
        match *n % 3 {
            0 => Any::One(T::build(n)),
            1 => Any::No,
            _ => Any::Two { a: Seen::build(n), b: T::build(n) },
        }
    }
    fn look(&self, v: &mut Vec<u8>) {
        match self {
            Any::One(x) => x.look(v),
            Any::Two { a, b } => {
                a.look(v);
                b.look(v)
            }
            Any::No => {}
        }
    }
}

fn run<T: Seen + SerBin + DeBin + SerJson + DeJson + SerRon + DeRon>(c: &mut Ctx, panics: bool, cuts: bool) -> String {
    LEFT.set(usize::MAX);
    FAULT.set(Fault::None);
    let zeros = ZEROS.get();
    let mut n = 0;
    let v = T::build(&mut n);
    let mut want = vec![];
    v.look(&mut want);
    let format = c.pick(3);
    let faults: &[Fault] = if panics { &[Fault::PanicBefore, Fault::PanicAfter] } else { &[Fault::None, Fault::Before, Fault::After] };
    let writing = panics && cuts && c.pick(2) == 1;
    let f = faults[c.pick(faults.len())];
    let at = if f == Fault::None || want.is_empty() { 0 } else { c.pick(want.len()) };
    let plan = |on: bool| {
        FAULT.set(f);
        LEFT.set(if on { at } else { usize::MAX })
    };
    let (b, j, r) = match format {
        0 => {
            plan(writing);
            (catch_unwind(AssertUnwindSafe(|| v.serialize_bin())).ok(), None, None)
        }
        1 => {
            plan(writing);
            (None, catch_unwind(AssertUnwindSafe(|| v.serialize_json())).ok(), None)
        }
        _ => {
            plan(writing);
            (None, None, catch_unwind(AssertUnwindSafe(|| v.serialize_ron())).ok())
        }
    };
    plan(false);
    drop(v);
    // whole, or cut off: in the middle and before the end, or anywhere
    let cut = |c: &mut Ctx, n: usize| match f {
        Fault::None if cuts => c.pick(n + 1),
        Fault::None => [0, 1.min(n), n / 2][c.pick(3)],
        _ => 0,
    };
    let mut whole = true;
    let got = match (&b, &j, &r) {
        (Some(b), ..) => {
            let k = cut(c, b.len());
            whole = k == 0;
            let part = b[..b.len() - k].to_vec().into_boxed_slice();
            plan(!writing);
            catch_unwind(AssertUnwindSafe(|| T::deserialize_bin(&part).ok()))
        }
        (_, Some(t), _) | (.., Some(t)) => {
            let at: Vec<usize> = t.char_indices().map(|p| p.0).chain([t.len()]).rev().collect();
            let k = cut(c, at.len() - 1);
            whole = k == 0;
            let part = t[..at[k]].to_string().into_boxed_str();
            plan(!writing);
            catch_unwind(AssertUnwindSafe(|| if format == 1 { T::deserialize_json(&part).ok() } else { T::deserialize_ron(&part).ok() }))
        }
        _ => Ok(None),
    };
    LEFT.set(usize::MAX);
    let out = match got {
        Err(_) => "panic".to_string(),
        Ok(None) if f == Fault::None && whole => return "WRONG: what was written is not read".into(),
        Ok(None) => "error".into(),
        Ok(Some(w)) => {
            let mut seen = vec![];
            w.look(&mut seen);
            if f == Fault::None && whole && seen != want {
                return format!("WRONG: {want:?} is read as {seen:?}");
            }
            format!("{seen:?}")
        }
    };
    if !panics && ZEROS.get() != zeros {
        return format!("WRONG: {} elements without size are left", ZEROS.get() - zeros);
    }
    out
}

pub fn tasks(level: usize, panics: bool) -> Vec<Task> {
    if panics {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let mut v = vec![];
    macro_rules! add {
        ($($t:ty),* $(,)?) => {$(
            let name: String = stringify!($t).split_whitespace().collect();
            let cuts = level > 0 || name.contains("Heap");
            v.push(task(name, 0, move |c| run::<$t>(c, panics, cuts)));
        )*};
    }
    macro_rules! each {
        ($($e:ident),*) => {$(
            add![
                $e, [$e; 0], [$e; 1], [$e; 2], [$e; 3], [[$e; 2]; 2], [([$e; 1], $e); 2], ($e, [$e; 2]), [Option<$e>; 2], Option<[$e; 2]>,
                Box<[$e; 2]>, [Box<$e>; 2], [Vec<$e>; 2], Vec<[$e; 2]>, LinkedList<[$e; 2]>, BTreeMap<u8, [$e; 2]>, Vec<$e>, LinkedList<$e>,
                ([$e; 2], [$e; 1], $e), ($e, $e, [$e; 1], $e), Named<$e>, Pair<$e>, Any<$e>, [Any<$e>; 3],
            ];
            if level > 0 {
                add![[Named<$e>; 2], Vec<Pair<$e>>, [([$e; 2], $e); 2]];
            }
        )*};
    }
    each!(Heap, Text, Wide, Zero, Niche);
    add![[Shared; 2], [[Shared; 2]; 2], Named<Shared>, [Any<Shared>; 3], Vec<[Shared; 2]>, [Huge; 2], ([Huge; 1], Huge), Vec<[Huge; 1]>, Any<Huge>];
    if level > 0 {
        add![[[[Heap; 2]; 2]; 2], [Heap; 9], [Text; 9], [Zero; 9], [Vec<Option<[Text; 2]>>; 2], Named<[Text; 2]>, Vec<Named<Any<Text>>>, [Pair<Pair<Heap>>; 2]];
    }
    v
}
