//! Step contracts of the renderer.  The module `renderer` is the source file the renderer crate
//! is built from, with its guarded hooks on.
#![allow(dead_code)]
#[path = "../../core/nd.rs"]
pub mod nd;
#[path = "../../core/snap.rs"]
pub mod snap;
#[path = "../../core/stubs.rs"]
pub mod stubs;
#[path = "/repo/thermal_renderer/src/renderer.rs"]
pub mod renderer;
pub mod seen;

#[cfg(feature = "c08")]
pub mod moves;
#[cfg(any(feature = "c10", feature = "c11"))]
pub mod page;
#[cfg(feature = "c18")]
pub mod buffer;
#[cfg(feature = "c23")]
pub mod place;

#[cfg(not(kani))]
pub fn registry() -> Vec<&'static [nd::Contract]> {
    let mut v: Vec<&'static [nd::Contract]> = vec![];
    #[cfg(feature = "c08")]
    v.push(moves::REG);
    #[cfg(any(feature = "c10", feature = "c11"))]
    v.push(page::REG);
    #[cfg(feature = "c18")]
    v.push(buffer::REG);
    #[cfg(feature = "c23")]
    v.push(place::REG);
    v
}
