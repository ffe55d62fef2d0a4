//! Canvases with known contents.
use crate::nd::Nd;
use std::cell::RefCell;
use thermal_parser::graphics::RGBA;
use thermal_renderer::image_renderer::thermal_image::ThermalImage;

thread_local! {
    // loading the fonts takes longer than the contract
    static ONE: RefCell<ThermalImage> = RefCell::new(ThermalImage::new(0));
}
#[derive(Clone, PartialEq, Debug)]
pub struct Px {
    pub w: u32,
    pub h: u32,
    pub px: Vec<(u8, u8, u8, u8)>,
}
impl Px {
    pub fn at(&self, x: u32, y: u32) -> (u8, u8, u8, u8) {
        self.px[(y * self.w + x) as usize]
    }
}
pub fn t(c: &RGBA) -> (u8, u8, u8, u8) {
    (c.r, c.g, c.b, c.a)
}
pub fn rgba(p: (u8, u8, u8, u8)) -> RGBA {
    RGBA { r: p.0, g: p.1, b: p.2, a: p.3 }
}
pub fn now(i: &mut ThermalImage) -> Px {
    let (w, h, p) = i.copy();
    assert!(p.len() as u64 == w as u64 * h as u64, "a canvas has width times height pixels: {} x {}, {}", w, h, p.len());
    assert!(w == i.width && h == i.get_height());
    Px { w, h, px: p.iter().map(t).collect() }
}
pub fn sizes(nd: &mut Nd) -> (u32, u32) {
    match nd.range(0, 40) {
        0 => (nd.range(1, 700), nd.range(0, 5)),
        1 => (nd.range(1, 5), nd.range(0, 700)),
        2..=9 => (nd.range(1, 40), nd.range(0, 3)),
        10..=17 => (nd.range(1, 3), nd.range(0, 40)),
        _ => (nd.range(1, 9), nd.range(0, 9)),
    }
}
/// numbered opaque pixels, so that every pixel can be told from every other
pub fn numbered(w: u32, h: u32) -> Vec<RGBA> {
    (0..w * h).map(|n| RGBA { r: n as u8, g: (n >> 8) as u8, b: 77, a: 255 }).collect()
}
pub fn any_pixels(nd: &mut Nd, n: u32, opaque: bool) -> Vec<RGBA> {
    (0..n).map(|_| RGBA { r: nd.u8(), g: nd.u8(), b: nd.u8(), a: if opaque { 255 } else { nd.pick(&[0u8, 255, 255, 128, 1, 254]) } }).collect()
}
/// Runs f on a canvas of that size and content.
pub fn with<R>(w: u32, h: u32, content: Vec<RGBA>, grow: bool, paper: RGBA, f: impl FnOnce(&mut ThermalImage) -> R) -> R {
    ONE.with(|c| {
        let mut c = match c.try_borrow_mut() {
            Ok(c) => c,
            Err(_) => panic!("canvas in use"),
        };
        c.set_width(w);
        c.empty();
        c.paper_color = RGBA { r: 255, g: 255, b: 255, a: 255 };
        c.auto_grow = true;
        c.errors.clear();
        // one pixel of paper after the other
        for (k, p) in content.iter().enumerate() {
            c.paper_color = *p;
            push_one(&mut c, k as u32 + 1);
        }
        c.width = w;
        assert!(c.get_height() == h || w == 0, "setup");
        c.paper_color = paper;
        c.auto_grow = grow;
        f(&mut c)
    })
}
/// a canvas of width 1 grows by one pixel
fn push_one(c: &mut ThermalImage, n: u32) {
    c.width = 1;
    c.expand_to_height(n);
}
