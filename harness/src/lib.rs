//! Harnesses: each `h_*` function builds objects of the library under test with unconstrained inputs
//! (`any`, `below`, `pick`, buffers) and asserts a property.  The symbolic engine executes the LLVM IR of
//! these functions; the `native` feature runs the same functions on concrete inputs (replay).
#![allow(clippy::all)]
#![allow(unused_macros, unused_imports, dead_code)]
pub mod api;
pub mod kit;
#[cfg(feature = "native")]
pub mod native;

#[macro_export]
macro_rules! harnesses {
    ($($name:ident = $body:expr;)*) => {
        $(#[no_mangle] #[inline(never)] pub fn $name() { $body })*
        pub const LIST: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

macro_rules! props {
    ($($m:ident $f:literal),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn find(_n: &str) -> Option<fn()> {
            $(#[cfg(feature = $f)] for (k, f) in $m::LIST { if *k == _n { return Some(*f); } })*
            None
        }
    };
}
props!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09",
       c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19",
       c22 "c22", c23 "c23", c24 "c24", c25 "c25", c26 "c26");
