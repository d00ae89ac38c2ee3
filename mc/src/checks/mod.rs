pub mod bytes;
pub mod calls;
pub mod texts;
pub mod drops;
pub mod pumps;
pub mod errors;
pub mod reasons;
pub mod seqs;
pub mod strings;
pub mod numbers;
pub mod tomls;
pub mod values;
pub mod writes;

use crate::engine::Plan;

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C18", "C19", "C20", "C21", "C23", "C24", "C27", "C28"];

pub fn plan(id: &str, thorough: bool) -> Plan {
    use crate::lexref::Flavor::*;
    use crate::looks::Mode::*;
    use numbers::Part as N;
    use strings::Part as S;
    let th = thorough;
    let more = |p: Plan, n: Option<N>, s: Option<S>| {
        let p = match n {
            Some(n) => p.also("the numbers of C20", numbers::for_part(th, n)),
            None => p,
        };
        match s {
            Some(s) => p.also("the strings of C21", strings::for_part(th, s)),
            None => p,
        }
    };
    match id {
        "C01" => more(values::c01(th), Some(N::Bin), Some(S::Bin)),
        "C02" => more(values::c02(th), Some(N::Bin), Some(S::Bin)),
        "C03" => bytes::c03(th),
        "C04" => bytes::c04(th),
        "C05" => more(values::c05(th), Some(N::Trip(Json)), Some(S::Json)),
        "C06" => more(values::c06(th), Some(N::Rfc), Some(S::Rfc)),
        "C07" => more(texts::c07(th), Some(N::Read(Json, Accept)), Some(S::ReadJson)),
        "C08" => texts::c08(th),
        "C09" => more(texts::c09(th), Some(N::Read(Json, Reject)), None),
        "C10" => more(values::c10(th), Some(N::Trip(Ron)), Some(S::Ron)),
        "C11" => more(texts::c11(th), Some(N::Read(Ron, Accept)), Some(S::ReadRon)),
        "C12" => texts::c12(th),
        "C13" => more(texts::c13(th), Some(N::Read(Ron, Reject)), None),
        "C14" => more(tomls::c14(th), None, Some(S::Toml)),
        "C15" => tomls::c15(th),
        "C18" => drops::c18(th),
        "C19" => errors::c19(th),
        "C20" => numbers::c20(th),
        "C21" => strings::c21(th),
        "C23" => seqs::c23(th),
        "C24" => calls::c24(th),
        "C27" => writes::c27(th),
        "C28" => reasons::c28(th),
        _ => panic!("no check for {id}"),
    }
}

pub use crate::looks::{cut, hex, show};
