// Types which derive whatever the configuration has; also compiled without std.
macro_rules! all {
    ($($i:item)*) => {$(
        #[cfg_attr(feature = "binary", derive(nanoserde::DeBin, nanoserde::SerBin))]
        #[cfg_attr(feature = "json", derive(nanoserde::DeJson, nanoserde::SerJson))]
        #[cfg_attr(feature = "ron", derive(nanoserde::DeRon, nanoserde::SerRon))]
        #[derive(Debug, Clone, PartialEq)]
        $i
    )*};
}
macro_rules! attributes {
    ($($i:item)*) => {$(
        #[cfg_attr(feature = "binary", derive(nanoserde::DeBin, nanoserde::SerBin))]
        #[cfg_attr(feature = "json", derive(nanoserde::DeJson, nanoserde::SerJson))]
        #[cfg_attr(feature = "ron", derive(nanoserde::DeRon, nanoserde::SerRon))]
        #[cfg_attr(any(feature = "binary", feature = "json", feature = "ron"), derive(Debug, Clone, PartialEq))]
        #[cfg(any(feature = "binary", feature = "json", feature = "ron"))]
        $i
    )*};
}

all! {
    pub struct Pt { pub a: u8, pub b: Option<String>, pub c: Vec<i16> }
    pub struct Tu(pub u8, pub String);
    pub struct Nt(pub f32);
    pub struct Un;
    pub struct Em {}
    pub enum En { V, A(u8), B(bool, Option<u8>), C { x: Option<u8>, y: String }, D }
    pub enum Units { V, W }
    pub struct Ge<T: Clone> { pub t: T, pub u: Vec<T> }
    pub struct Ne { pub p: Pt, pub q: Option<Box<Ne>>, pub r: BTreeMap<String, En> }
}
attributes! {
    pub struct At {
        #[nserde(rename = "aa")]
        pub a: u8,
        #[nserde(default)]
        pub b: String,
        #[nserde(default = "7")]
        pub c: u8,
        #[nserde(default_with = "with")]
        pub d: u16,
        #[nserde(skip)]
        pub e: u8,
        #[nserde(serialize_none_as_null)]
        pub f: Option<u8>,
        #[nserde(default = "text")]
        pub g: String,
    }
    #[nserde(default)]
    pub struct Co { pub a: u8, pub b: Vec<String> }
    #[nserde(transparent)]
    pub struct Tr(pub u8);
    #[nserde(crate = "::nanoserde")]
    pub struct Cr { pub a: i8 }
}
#[allow(dead_code)]
fn with() -> u16 {
    9
}
#[cfg(any(feature = "binary", feature = "json"))]
mod proxied {
    use super::*;
    #[cfg_attr(feature = "binary", derive(nanoserde::DeBin, nanoserde::SerBin))]
    #[cfg_attr(feature = "json", derive(nanoserde::DeJson, nanoserde::SerJson))]
    #[nserde(proxy = "Px")]
    #[derive(Debug, Clone, PartialEq)]
    pub struct Pr {
        pub n: u16,
    }
    #[cfg_attr(feature = "binary", derive(nanoserde::DeBin, nanoserde::SerBin))]
    #[cfg_attr(feature = "json", derive(nanoserde::DeJson, nanoserde::SerJson))]
    #[derive(Debug, Clone, PartialEq)]
    pub struct Px(pub String);
    impl From<&Pr> for Px {
        fn from(p: &Pr) -> Px {
            Px(p.n.to_string())
        }
    }
    impl From<&Px> for Pr {
        fn from(p: &Px) -> Pr {
            Pr { n: p.0.parse().unwrap_or(3) }
        }
    }
}
#[cfg(any(feature = "binary", feature = "json"))]
pub use proxied::*;
