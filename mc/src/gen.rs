//! Enumeration of the values of a schema as choices of an explorer context.

use crate::engine::Ctx;
use crate::schema::*;

pub const STRS: &[&str] = &[
    "",
    "\"",
    "\\",
    "\n",
    "é",
    "😀",
    "\u{0}",
    "\u{7f}\u{1}",
    "a,b:{}[]()//x",
    "null",
    "None",
    "/*",
    " lead and trail ",
    "\t\r\u{8}\u{c}",
    "\\u0041\\n",
    "\u{2028}\u{feff}\u{ffff}",
    "a\"",
    "\\\"",
    "0",
    "long long long long long long long long long long long long long long long",
];

pub fn u_specials(bytes: u8) -> Vec<u128> {
    let max = if bytes == 16 { u128::MAX } else { (1u128 << (8 * bytes as u32)) - 1 };
    let mut v = vec![0, 1, max, max / 2, max / 2 + 1, max - 1];
    for k in [7, 8, 15, 16, 31, 32, 53, 63, 64, 127] {
        if k < 8 * bytes as u32 {
            v.push(1 << k);
            v.push((1 << k) - 1);
        }
    }
    v.dedup();
    v
}
pub fn i_specials(bytes: u8) -> Vec<i128> {
    let max = if bytes == 16 { i128::MAX } else { (1i128 << (8 * bytes as u32 - 1)) - 1 };
    let mut v = vec![0, 1, -1, max, -max - 1, max - 1, -max];
    for k in [7u32, 8, 15, 16, 31, 32, 53, 63, 64] {
        if k < 8 * bytes as u32 - 1 {
            v.push(1 << k);
            v.push(-(1 << k));
            v.push(-(1 << k) - 1);
        }
    }
    v
}
pub const F32S: &[f32] = &[
    0.0,
    -0.0,
    1.0,
    -1.5,
    0.1,
    f32::MAX,
    f32::MIN,
    f32::MIN_POSITIVE,
    1e-45,
    16777216.0,
    16777217.0,
    1e10,
    3.4e38,
    1.17549421e-38,
];
pub const F64S: &[f64] = &[
    0.0,
    -0.0,
    1.0,
    -1.5,
    0.1,
    f64::MAX,
    f64::MIN,
    f64::MIN_POSITIVE,
    5e-324,
    9007199254740993.0,
    1e16,
    1e21,
    -1e-7,
    18446744073709551616.0,
    1e300,
    123456.789e3,
];
pub const DURS: &[(u64, u32)] = &[
    (0, 0),
    (1, 0),
    (0, 1),
    (0, 999_999_999),
    (u64::MAX, 0),
    (u64::MAX, 999_999_999),
    (5, 500_000_000),
    (1 << 32, 1),
    (i64::MAX as u64, 7),
];
pub const TIMES: &[(u64, u32)] =
    &[(0, 0), (1, 0), (0, 1), (0, 999_999_999), (i64::MAX as u64, 999_999_999), (1 << 32, 100), (5, 500_000_000)];
/// before the epoch
pub const EARLIER: &[(u64, u32)] = &[(0, 1), (1, 0), (0, 999_999_999), (1 << 32, 100), (i64::MAX as u64, 0)];

/// How values are built.
pub struct Gen {
    /// structural choices left which are all explored
    pub free: usize,
    pub pos: u64,
    /// include infinities and NaN
    pub nonfinite: bool,
    /// include times before the epoch
    pub early: bool,
    pub max_depth: usize,
    /// lengths of containers to try, the first is the default
    pub lens: &'static [usize],
}

impl Gen {
    pub fn new(free: usize) -> Gen {
        Gen { free, pos: 0, nonfinite: false, early: false, max_depth: 6, lens: &[2, 0, 1, 3] }
    }
    pub fn nonfinite(mut self) -> Gen {
        self.nonfinite = true;
        self
    }
    fn choose(&mut self, c: &mut Ctx, n: usize) -> usize {
        if self.free > 0 && n > 1 {
            self.free -= 1;
            c.pick(n)
        } else {
            c.dev(n)
        }
    }
    fn len(&mut self, c: &mut Ctx, depth: usize) -> usize {
        if depth >= self.max_depth {
            return 0;
        }
        let k = self.choose(c, self.lens.len());
        self.lens[k]
    }
    fn next(&mut self) -> u64 {
        self.pos += 1;
        self.pos
    }
    pub fn gen(&mut self, c: &mut Ctx, s: &S) -> Val {
        self.go(c, s, 0)
    }
    fn go(&mut self, c: &mut Ctx, s: &S, depth: usize) -> Val {
        let d = depth + 1;
        match s {
            S::Lazy(f) => self.go(c, &f(), depth),
            S::Unit => Val::Unit,
            S::Bool => {
                let p = self.next();
                let k = c.dev(2);
                Val::Bool((p % 2 == 0) ^ (k == 1))
            }
            S::U(b) => {
                let p = self.next() as u128;
                let sp = u_specials(*b);
                let k = c.dev(sp.len() + 1);
                // distinct small numbers by default, spread over all bytes
                let bits = 8 * *b as u32;
                let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
                Val::U(if k == 0 { (p * 0x0102_0305_0709_0b0d_1113_1719_1d1f_2501u128) & mask } else { sp[k - 1] })
            }
            S::I(b) => {
                let p = self.next() as i128;
                let sp = i_specials(*b);
                let k = c.dev(sp.len() + 1);
                Val::I(if k == 0 {
                    let v = 3 + p % 97;
                    if p % 2 == 0 {
                        -v
                    } else {
                        v
                    }
                } else {
                    sp[k - 1]
                })
            }
            S::F32 => {
                let p = self.next();
                let k = c.dev(1 + F32S.len() + if self.nonfinite { 5 } else { 0 });
                Val::F32(if k == 0 {
                    (p as f32 + 0.25).to_bits()
                } else if k <= F32S.len() {
                    F32S[k - 1].to_bits()
                } else {
                    [0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_1234, 0x7f80_0001][k - 1 - F32S.len()]
                })
            }
            S::F64 => {
                let p = self.next();
                let k = c.dev(1 + F64S.len() + if self.nonfinite { 5 } else { 0 });
                Val::F64(if k == 0 {
                    (p as f64 + 0.125).to_bits()
                } else if k <= F64S.len() {
                    F64S[k - 1].to_bits()
                } else {
                    [
                        0x7ff0_0000_0000_0000,
                        0xfff0_0000_0000_0000,
                        0x7ff8_0000_0000_0000,
                        0xfff8_0000_0000_1234,
                        0x7ff0_0000_0000_0001,
                    ][k - 1 - F64S.len()]
                })
            }
            S::Str => {
                let p = self.next();
                let k = c.dev(STRS.len() + 1);
                Val::Str(if k == 0 { format!("s{p}") } else { STRS[k - 1].to_string() })
            }
            S::Dur => {
                let p = self.next();
                let k = c.dev(DURS.len() + 1);
                if k == 0 {
                    Val::Dur(p, p as u32 * 1001)
                } else {
                    Val::Dur(DURS[k - 1].0, DURS[k - 1].1)
                }
            }
            S::Time => {
                let p = self.next();
                let k = c.dev(1 + TIMES.len() + if self.early { EARLIER.len() } else { 0 });
                if k > TIMES.len() {
                    let (s, n) = EARLIER[k - 1 - TIMES.len()];
                    Val::Time(s, n | EARLY)
                } else if k == 0 {
                    Val::Time(p, p as u32 * 1001)
                } else {
                    Val::Time(TIMES[k - 1].0, TIMES[k - 1].1)
                }
            }
            S::Opt(t) => {
                if depth >= self.max_depth {
                    return Val::none();
                }
                if self.choose(c, 2) == 0 {
                    Val::some(self.go(c, t, d))
                } else {
                    Val::none()
                }
            }
            S::Seq(t) | S::Slice(t) => {
                let n = self.len(c, depth);
                Val::Seq((0..n).map(|_| self.go(c, t, d)).collect())
            }
            S::Set(t, _) => {
                let n = self.len(c, depth);
                let mut v: Vec<Val> = (0..n).map(|_| self.go(c, t, d)).collect();
                v.sort();
                v.dedup();
                Val::Set(v)
            }
            S::Map(k, t, _) => {
                let n = self.len(c, depth);
                let mut v: Vec<(Val, Val)> = (0..n).map(|_| (self.go(c, k, d), self.go(c, t, d))).collect();
                v.sort();
                v.dedup_by(|a, b| a.0 == b.0);
                Val::Map(v)
            }
            S::Arr(n, t) => Val::Tup((0..*n).map(|_| self.go(c, t, d)).collect()),
            S::Tup(ts) => Val::Tup(ts.iter().map(|t| self.go(c, t, d)).collect()),
            S::Struct(st) => Val::Tup(st.fields.iter().map(|f| self.field(c, f, d)).collect()),
            S::Enum(e) => {
                let mut n = e.variants.len();
                if depth >= self.max_depth {
                    n = 1;
                }
                let k = self.choose(c, n);
                let v = &e.variants[k];
                Val::Enum(k, v.fields.iter().map(|f| self.field(c, f, d)).collect())
            }
        }
    }
    fn field(&mut self, c: &mut Ctx, f: &FieldS, depth: usize) -> Val {
        self.go(c, &f.ty, depth)
    }
}

/// What reading back a value yields: skipped fields take their default.
pub fn after_trip(s: &S, v: &Val, format: Format) -> Val {
    let map = |t: &S, items: &[Val]| items.iter().map(|x| after_trip(t, x, format)).collect::<Vec<_>>();
    let fields = |fs: &[FieldS], items: &[Val]| {
        fs.iter()
            .zip(items)
            .map(|(f, x)| match &f.missing {
                _ if f.skip => f.skip_default(format),
                // a None which is not written is as good as missing
                Some(m) if format != Format::Bin && x.is_none() && f.ty.resolve().is_opt() && !(f.null && format == Format::Json) => m.clone(),
                _ => after_trip(&f.ty, x, format),
            })
            .collect::<Vec<_>>()
    };
    match (s, v) {
        (S::Lazy(f), v) => after_trip(&f(), v, format),
        (S::Opt(t), Val::Opt(x)) => Val::Opt(x.as_ref().map(|x| Box::new(after_trip(t, x, format)))),
        (S::Seq(t), Val::Seq(x)) => Val::Seq(map(t, x)),
        (S::Set(t, _), Val::Set(x)) => set_val(map(t, x)),
        (S::Map(k, t, _), Val::Map(x)) => {
            map_val(x.iter().map(|(a, b)| (after_trip(k, a, format), after_trip(t, b, format))).collect())
        }
        (S::Arr(_, t), Val::Tup(x)) => Val::Tup(map(t, x)),
        (S::Tup(ts), Val::Tup(x)) => Val::Tup(ts.iter().zip(x).map(|(t, x)| after_trip(t, x, format)).collect()),
        (S::Struct(st), Val::Tup(x)) => Val::Tup(fields(&st.fields, x)),
        (S::Enum(e), Val::Enum(k, x)) => Val::Enum(*k, fields(&e.variants[*k].fields, x)),
        (_, v) => v.clone(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Format {
    Bin,
    Json,
    Ron,
}

impl FieldS {
    /// Binary knows no default attributes.
    pub fn skip_default(&self, f: Format) -> Val {
        match f {
            Format::Bin => self.ty.zero(),
            _ => self.skip_val.clone().unwrap_or_else(|| self.ty.zero()),
        }
    }
}
