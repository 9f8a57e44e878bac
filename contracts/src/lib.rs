//! Proof harnesses: the property layer of the contracts on `colorz` (see /verif/DESIGN.md).
//!
//! Every harness is a Hoare triple over the *real* code of /repo (path dependency): symbolic
//! inputs satisfying the precondition, one call, and the postcondition asserted for all of them.
//! `cargo kani` turns each into verification conditions that CBMC discharges.
#![cfg_attr(kani, feature(formatting_options))]
#![recursion_limit = "16384"]
#![allow(dead_code, unused_imports, unused_macros, static_mut_refs)]

#[macro_use]
mod tables;

#[cfg(kani)]
#[macro_use]
mod common;

#[cfg(kani)]
#[macro_use]
mod world;

macro_rules! modules { ($($m:ident)*) => { $( #[cfg(kani)] pub mod $m; )* } }
modules! { c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c17 c18 c19 c20 }
#[cfg(all(kani, feature = "std"))]
pub mod c15;
#[cfg(all(kani, not(feature = "strip"), any(feature = "std", feature = "scn")))]
pub mod c16;
#[cfg(all(kani, colorz_contracts))]
pub mod functions;
