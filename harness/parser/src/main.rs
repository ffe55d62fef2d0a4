#![allow(unused_imports)]
#[cfg(not(kani))]
use verif_parser::nd::{Contract, Discard, Nd};
#[cfg(not(kani))]
use verif_parser::registry;
#[cfg(not(kani))]
include!("../../core/replay.rs");
#[cfg(kani)]
fn main() {}
