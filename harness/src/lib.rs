//! Contracts for binate and the obligations that follow from them; see ../../DESIGN.md.
#![recursion_limit = "512"]
#![cfg_attr(not(kani), allow(dead_code, unused_imports, unused_macros))]
#[macro_use]
pub mod mk;
#[cfg(kani)]
#[macro_use]
mod gen;
#[cfg(kani)]
mod lazy;
#[cfg(kani)]
mod obs;
pub mod spec;
#[cfg(kani)]
mod stubs;

#[cfg(all(kani, feature = "header", any(feature = "c02", feature = "c03", feature = "c05", feature = "c06")))]
mod header;

#[cfg(all(kani, any(feature = "c02", feature = "c03", feature = "c05", feature = "c06")))]
mod c05;
#[cfg(all(kani, feature = "c02"))]
mod c02;
#[cfg(all(kani, feature = "c03"))]
mod c03;

#[cfg(all(kani, feature = "c04"))]
mod c04;
#[cfg(all(kani, feature = "c07"))]
mod c07;
#[cfg(all(kani, feature = "c01"))]
mod c01;
#[cfg(all(kani, feature = "c16"))]
mod c16;
#[cfg(all(kani, feature = "c17"))]
mod c17;
#[cfg(all(kani, feature = "c18"))]
mod c18;
#[cfg(all(kani, feature = "c20"))]
mod c20;
#[cfg(all(kani, feature = "c19"))]
mod c19;
#[cfg(feature = "c15")]
pub mod registry;
#[cfg(all(kani, feature = "c15"))]
mod c15;
#[cfg(all(kani, feature = "c08"))]
mod c08;
#[cfg(all(kani, feature = "c10", feature = "hooks"))]
mod c10;
#[cfg(all(kani, feature = "c09", feature = "hooks"))]
mod c09;
#[cfg(all(kani, any(feature = "c11", feature = "c12", feature = "c13")))]
#[macro_use]
mod atomics;
#[cfg(all(kani, any(feature = "c11", feature = "c12")))]
mod ids;
#[cfg(all(kani, feature = "c13"))]
mod c13;
#[cfg(all(kani, feature = "c14", feature = "hooks"))]
mod c14;
