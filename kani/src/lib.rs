//! Contracts on the real code of /repo (crate `dmidecode`), one module per property.
//!
//! Under Kani each contract is a proof harness; natively it is a replayable check (see main.rs).
#![recursion_limit = "512"]
#![allow(clippy::all)]
#![allow(static_mut_refs)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code)]

#[macro_use]
pub mod rt;
pub mod common;
pub mod hooks;
pub mod walk;

pub mod c02;
pub mod c04;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c16_layouts;
pub mod c17;
pub mod c18;
pub mod c19;

#[cfg(not(kani))]
use walk::NATIVE as NATIVE_WALK;
#[cfg(kani)]
const NATIVE_WALK: &[(&str, fn())] = &[];

pub fn all() -> Vec<(&'static str, fn())> {
    [c02::LIST, c04::LIST, c06::LIST, c07::LIST, c07::NATIVE, c08::LIST, c09::LIST, c10::LIST, c11::LIST, c12::LIST, c13::LIST, c14::LIST, c14::NATIVE, c15::LIST, c16::LIST, c16::NATIVE, c17::LIST, c18::LIST, c19::LIST, c19::NATIVE, NATIVE_WALK].concat()
}
