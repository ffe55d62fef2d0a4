#![allow(unused_imports)]
#[cfg(not(kani))]
use verif_steps::nd::{Contract, Discard, Nd};
#[cfg(not(kani))]
use verif_steps::registry;
#[cfg(not(kani))]
include!("../../core/replay.rs");
#[cfg(kani)]
fn main() {}
