#![allow(dead_code)]
#[path = "../../core/nd.rs"]
pub mod nd;
#[path = "../../core/snap.rs"]
pub mod snap;
#[path = "../../core/stubs.rs"]
pub mod stubs;
pub mod decode;
#[cfg(not(kani))]
pub mod known;
pub mod stream;
pub mod util;

#[cfg(feature = "c05")]
pub mod style;
#[cfg(feature = "c06")]
pub mod code2d;

#[cfg(feature = "c07")]
pub mod pos;

#[cfg(feature = "c09")]
pub mod init;

#[cfg(feature = "c01")]
pub mod framing;

#[cfg(feature = "c02")]
pub mod payload;

#[cfg(feature = "c03")]
pub mod envelope;

#[cfg(feature = "c04")]
pub mod conserve;

#[cfg(all(feature = "c12", not(kani)))]
pub mod image12;

#[cfg(all(feature = "c13", not(kani)))]
pub mod image13;

#[cfg(all(feature = "c14", not(kani)))]
pub mod scale;

#[cfg(all(feature = "c15", not(kani)))]
pub mod layers;

#[cfg(feature = "c16")]
pub mod blend;

#[cfg(all(feature = "c17", not(kani)))]
pub mod store;

#[cfg(feature = "c24")]
pub mod decode_text;
#[cfg(all(feature = "c24", not(kani)))]
pub mod tables;

#[cfg(feature = "c25")]
pub mod upce;

#[cfg(all(feature = "c26", not(kani)))]
pub mod barcodes;

#[cfg(all(feature = "c27", not(kani)))]
pub mod qr;

#[cfg(all(feature = "c28", not(kani)))]
pub mod file;

#[cfg(all(feature = "c29", not(kani)))]
pub mod roundtrip;

#[cfg(all(feature = "c31", not(kani)))]
pub mod total;

#[cfg(feature = "c08")]
pub mod moves;

#[cfg(feature = "c23")]
pub mod place;

#[cfg(feature = "c10")]
pub mod page_area;

#[cfg(feature = "c11")]
pub mod direction;

#[cfg(not(kani))]
pub fn registry() -> Vec<&'static [nd::Contract]> {
    let mut v: Vec<&'static [nd::Contract]> = vec![];
    #[cfg(feature = "c05")]
    v.push(style::REG);
    #[cfg(feature = "c06")]
    v.push(code2d::REG);
    #[cfg(feature = "c07")]
    v.push(pos::REG);
    #[cfg(feature = "c09")]
    v.push(init::REG);
    #[cfg(feature = "c01")]
    v.push(framing::REG);
    #[cfg(feature = "c02")]
    v.push(payload::REG);
    #[cfg(feature = "c03")]
    v.push(envelope::REG);
    #[cfg(feature = "c04")]
    v.push(conserve::REG);
    #[cfg(all(feature = "c12", not(kani)))]
    v.push(image12::REG);
    #[cfg(all(feature = "c13", not(kani)))]
    v.push(image13::REG);
    #[cfg(all(feature = "c14", not(kani)))]
    v.push(scale::REG);
    #[cfg(all(feature = "c15", not(kani)))]
    v.push(layers::REG);
    #[cfg(feature = "c16")]
    v.push(blend::REG);
    #[cfg(all(feature = "c17", not(kani)))]
    v.push(store::REG);
    #[cfg(feature = "c24")]
    v.push(decode_text::REG);
    #[cfg(feature = "c25")]
    v.push(upce::REG);
    #[cfg(all(feature = "c26", not(kani)))]
    v.push(barcodes::REG);
    #[cfg(all(feature = "c27", not(kani)))]
    v.push(qr::REG);
    #[cfg(all(feature = "c28", not(kani)))]
    v.push(file::REG);
    #[cfg(all(feature = "c29", not(kani)))]
    v.push(roundtrip::REG);
    #[cfg(all(feature = "c31", not(kani)))]
    v.push(total::REG);
    #[cfg(feature = "c08")]
    v.push(moves::REG);
    #[cfg(feature = "c23")]
    v.push(place::REG);
    #[cfg(feature = "c10")]
    v.push(page_area::REG);
    #[cfg(feature = "c11")]
    v.push(direction::REG);
    v
}
