//! Harnesses decided by Kani/CBMC.  The same bodies compile natively, reading their inputs from a
//! list of byte strings (a counterexample printed by Kani, or random bytes), so that every
//! violation is replayed against the ordinary build before it is reported.
#![allow(clippy::all)]
#[macro_use]
extern crate aegir;
#[macro_use]
pub mod io;
pub mod at;
pub mod access;
pub mod c10;
pub mod clash;
pub mod duals;
pub mod ints;
pub mod outside;
pub mod safety;
pub mod scalars;

pub fn table() -> Vec<(&'static str, fn())> {
    let mut v = vec![];
    access::register(&mut v);
    c10::register(&mut v);
    clash::register(&mut v);
    duals::register(&mut v);
    ints::register(&mut v);
    outside::register(&mut v);
    safety::register(&mut v);
    scalars::register(&mut v);
    v
}
