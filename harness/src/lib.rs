#![allow(clippy::all)]
pub mod sym;
#[cfg(feature = "native")]
pub mod native;

extern crate libkoopa_shim;

/// Declares harnesses: functions the engine enters by their symbol name.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident)*) => {
        $(const _: () = {
            #[export_name = concat!("h_", stringify!($name))]
            extern "C" fn entry() { $name() }
        };)*
        pub static ALL: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c16;
pub mod c17;
pub mod c19;
pub mod c20;
#[cfg(feature = "nolog")]
pub mod c18;
pub mod capi;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod fam;
pub mod mach;
pub mod t0;
pub mod util;
pub mod vfs;

#[cfg(not(feature = "nolog"))]
mod c18 {
    pub static ALL: &[(&str, fn())] = &[];
}

pub static ALL: &[&[(&str, fn())]] = &[c18::ALL, t0::ALL, c01::ALL, c02::ALL, c03::ALL, c04::ALL, c05::ALL, c06::ALL, c07::ALL, c08::ALL, c09::ALL, c10::ALL, c11::ALL, c12::ALL, c13::ALL, c14::ALL, c15::ALL, c16::ALL, c17::ALL, c19::ALL, c20::ALL];
