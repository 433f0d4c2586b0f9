use crate::cx::{Cx, Res};
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod net;
pub fn find(p: &str) -> Option<fn(&mut Cx) -> Res> {
    Some(match p {
        #[cfg(feature = "c01")]
        "C01" => c01::run,
        #[cfg(feature = "c02")]
        "C02" => c02::run,
        #[cfg(feature = "c03")]
        "C03" => c03::run,
        #[cfg(feature = "c04")]
        "C04" => c04::run,
        #[cfg(feature = "c05")]
        "C05" => c05::run,
        #[cfg(feature = "c06")]
        "C06" => c06::run,
        #[cfg(feature = "c07")]
        "C07" => c07::run,
        #[cfg(feature = "c08")]
        "C08" => c08::run,
        #[cfg(feature = "c09")]
        "C09" => c09::run,
        #[cfg(feature = "c10")]
        "C10" => c10::run,
        #[cfg(feature = "c11")]
        "C11" => c11::run,
        #[cfg(feature = "c12")]
        "C12" => c12::run,
        #[cfg(feature = "c13")]
        "C13" => c13::run,
        #[cfg(feature = "c14")]
        "C14" => c14::run,
        #[cfg(feature = "c15")]
        "C15" => c15::run,
        #[cfg(feature = "c15")]
        "C15U" => c15::mixture,
        #[cfg(feature = "c16")]
        "C16" => c16::run,
        #[cfg(feature = "c17")]
        "C17" => c17::run,
        #[cfg(feature = "c18")]
        "C18" => c18::run,
        #[cfg(feature = "c19")]
        "C19" => c19::run,
        _ => return None,
    })
}
