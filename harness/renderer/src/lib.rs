#![allow(dead_code)]
#[path = "../../core/nd.rs"]
pub mod nd;
#[path = "../../core/snap.rs"]
pub mod snap;
#[path = "../../core/stubs.rs"]
pub mod stubs;
#[path = "../../parser/src/decode.rs"]
pub mod decode;
#[cfg(not(kani))]
#[path = "../../parser/src/known.rs"]
pub mod known;
#[path = "../../parser/src/stream.rs"]
pub mod stream;
#[path = "../../parser/src/util.rs"]
pub mod util;
#[cfg(not(kani))]
pub mod rec;
#[cfg(not(kani))]
pub mod canvas;

#[cfg(all(feature = "c05", not(kani)))]
pub mod style;
#[cfg(all(feature = "c08", not(kani)))]
pub mod moves;
#[cfg(all(feature = "c10", not(kani)))]
pub mod area;
#[cfg(all(feature = "c11", not(kani)))]
pub mod turn;
#[cfg(all(feature = "c18", not(kani)))]
pub mod buffer;
#[cfg(all(feature = "c19", not(kani)))]
pub mod rotate;
#[cfg(all(feature = "c20", not(kani)))]
pub mod draw;
#[cfg(all(feature = "c21", not(kani)))]
pub mod grow;
#[cfg(all(feature = "c22", not(kani)))]
pub mod layout;
#[cfg(all(feature = "c23", not(kani)))]
pub mod place;
#[cfg(all(feature = "c30", not(kani)))]
pub mod html;
#[cfg(all(feature = "c31", not(kani)))]
pub mod total;

#[cfg(not(kani))]
pub fn registry() -> Vec<&'static [nd::Contract]> {
    #[allow(unused_mut)]
    let mut v: Vec<&'static [nd::Contract]> = vec![];
    #[cfg(feature = "c05")]
    v.push(style::REG);
    #[cfg(feature = "c08")]
    v.push(moves::REG);
    #[cfg(feature = "c10")]
    v.push(area::REG);
    #[cfg(feature = "c11")]
    v.push(turn::REG);
    #[cfg(feature = "c18")]
    v.push(buffer::REG);
    #[cfg(feature = "c19")]
    v.push(rotate::REG);
    #[cfg(feature = "c20")]
    v.push(draw::REG);
    #[cfg(feature = "c21")]
    v.push(grow::REG);
    #[cfg(feature = "c22")]
    v.push(layout::REG);
    #[cfg(feature = "c23")]
    v.push(place::REG);
    #[cfg(feature = "c30")]
    v.push(html::REG);
    #[cfg(feature = "c31")]
    v.push(total::REG);
    v
}
