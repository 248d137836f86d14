use crate::engine::{Check, Domain, Tier};
pub mod bip;
pub mod calls;
pub mod conc;
pub mod cont;
pub mod keys;
pub mod ffi;
pub mod life;
pub mod more;
pub mod own;
pub mod room;
pub mod secp;
pub fn base(id: &'static str, rule: &'static str, bounds: &str, domains: Vec<Domain>) -> Check {
    Check { id, rule, bounds: bounds.into(), domains, assumptions: vec![] }
}
macro_rules! checks {
    ($($id:expr => $f:path),* $(,)?) => {
        pub fn ids() -> Vec<&'static str> {
            vec![$($id),*]
        }
        pub fn get(id: &str, t: Tier) -> Option<Check> {
            match id {
                $($id => Some($f(t)),)*
                _ => None,
            }
        }
    };
}
checks! {
    "C01" => bip::c01,
    "C02" => bip::c02,
    "C03" => bip::c03,
    "C04" => bip::c04,
    "C05" => bip::c05,
    "C06" => bip::c06,
    "C07" => secp::c07,
    "C08" => secp::c08,
    "C09" => secp::c09,
    "C10" => keys::c10,
    "C11" => keys::c11,
    "C12" => keys::c12,
    "C13" => keys::c13,
    "C14" => keys::c14,
    "C15" => keys::c15,
    "C16" => cont::c16,
    "C17" => cont::c17,
    "C18" => cont::c18,
    "C19" => life::c19,
    "C20" => cont::c20,
    "C21" => life::c21,
    "C22" => life::c22,
    "C23" => life::c23,
    "C24" => cont::c24,
    "C25" => life::c25,
    "C26" => ffi::c26,
    "C27" => ffi::c27,
    "C28" => ffi::c28,
    "C29" => conc::c29,
    "C32" => more::c32,
    "C33" => more::c33,
    "C34" => more::c34,
    "C35" => more::c35,
    "C38" => own::c38,
    "C39" => room::c39,
    "C40" => calls::c40,
}
