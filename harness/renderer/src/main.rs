#![allow(unused_imports)]
#[cfg(not(kani))]
use verif_renderer::nd::{Contract, Discard, Nd};
#[cfg(not(kani))]
use verif_renderer::registry;
#[cfg(not(kani))]
include!("../../core/replay.rs");
#[cfg(kani)]
fn main() {}
