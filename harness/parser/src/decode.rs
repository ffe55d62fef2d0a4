//! Independent description of the image formats, and of what an image command prints.
#![cfg(not(kani))]
#![allow(dead_code)]
use crate::nd::Nd;
use thermal_parser::context::RenderColors;
use thermal_parser::graphics::*;

/// the pixels of an expected picture: the colour of the set ones
#[derive(Clone, PartialEq, Debug)]
pub struct Pic {
    pub w: u32,
    pub h: u32,
    pub px: Vec<Option<(u8, u8, u8)>>,
}
pub fn rgb(c: &RGBA) -> (u8, u8, u8) {
    (c.r, c.g, c.b)
}
pub fn colour_no(n: u8, c: &RenderColors) -> (u8, u8, u8) {
    rgb(match n {
        0 => &c.paper_color,
        2 | 50 => &c.color_2,
        3 | 51 => &c.color_3,
        _ => &c.color_1,
    })
}
pub fn raster_len(w: u32, h: u32) -> usize {
    (w as usize + 7) / 8 * h as usize
}
pub fn column_len(w: u32, h: u32) -> usize {
    (h as usize + 7) / 8 * w as usize
}
/// rows of bytes, most significant bit first; None when the data does not have that length
pub fn raster(w: u32, h: u32, col: (u8, u8, u8), d: &[u8]) -> Option<Pic> {
    if d.len() != raster_len(w, h) {
        return None;
    }
    let row = (w as usize + 7) / 8;
    let mut px = vec![];
    for y in 0..h as usize {
        for x in 0..w as usize {
            let b = d[y * row + x / 8];
            px.push(if (b >> (7 - x % 8)) & 1 == 1 { Some(col) } else { None });
        }
    }
    Some(Pic { w, h, px })
}
/// columns of bytes, most significant bit on top
pub fn column(w: u32, h: u32, col: (u8, u8, u8), d: &[u8]) -> Option<Pic> {
    if d.len() != column_len(w, h) {
        return None;
    }
    let n = (h as usize + 7) / 8;
    let mut px = vec![];
    for y in 0..h as usize {
        for x in 0..w as usize {
            let b = d[x * n + y / 8];
            px.push(if (b >> (7 - y % 8)) & 1 == 1 { Some(col) } else { None });
        }
    }
    Some(Pic { w, h, px })
}
pub fn scaled(p: &Pic, fx: u32, fy: u32) -> Pic {
    let (fx, fy) = (fx.max(1), fy.max(1));
    let (w, h) = (p.w * fx, p.h * fy);
    let mut px = vec![];
    for y in 0..h {
        for x in 0..w {
            px.push(p.px[((y / fy) * p.w + x / fx) as usize]);
        }
    }
    Pic { w, h, px }
}
/// later pictures over earlier ones, on the size of the first; None when one is larger
pub fn overlay(layers: &[Pic]) -> Option<Pic> {
    let mut out = layers.first()?.clone();
    for l in &layers[1..] {
        if l.w > out.w || l.h > out.h {
            return None;
        }
        for y in 0..l.h {
            for x in 0..l.w {
                if let Some(c) = l.px[(y * l.w + x) as usize] {
                    out.px[(y * out.w + x) as usize] = Some(c);
                }
            }
        }
    }
    Some(out)
}
/// colour number and layer, n times
pub fn multi(w: u32, h: u32, n: u8, by_column: bool, colors: &RenderColors, d: &[u8]) -> Option<Pic> {
    let len = if by_column { column_len(w, h) } else { raster_len(w, h) };
    if d.len() != n as usize * (len + 1) || n == 0 {
        return None;
    }
    let mut layers = vec![];
    for l in d.chunks(len + 1) {
        let col = colour_no(l[0], colors);
        layers.push(if by_column { column(w, h, col, &l[1..])? } else { raster(w, h, col, &l[1..])? });
    }
    overlay(&layers)
}
/// The picture of a graphics command: None for an error.
pub fn shown(g: &GraphicsCommand) -> Option<Pic> {
    match g {
        GraphicsCommand::Error(_) => None,
        GraphicsCommand::Image(i) => {
            assert!(i.pixels.len() as u64 == i.w as u64 * i.h as u64, "an image has exactly width times height pixels: {} x {}, {}", i.w, i.h, i.pixels.len());
            let px = i.pixels.iter().map(|p| match p.a {
                0 => None,
                255 => Some((p.r, p.g, p.b)),
                a => panic!("a pixel of a decoded image is opaque or transparent, not {}", a),
            }).collect();
            Some(Pic { w: i.w, h: i.h, px })
        }
        _ => panic!("an image command makes an image or an error"),
    }
}
pub fn check(got: &GraphicsCommand, want: &Option<Pic>, what: &str) {
    let got = shown(got);
    match (&got, want) {
        (None, None) => {}
        (Some(g), Some(w)) => {
            assert!((g.w, g.h) == (w.w, w.h), "{}: {} x {} instead of {} x {}", what, g.w, g.h, w.w, w.h);
            for (i, (a, b)) in g.px.iter().zip(&w.px).enumerate() {
                assert!(a == b, "{}: pixel {} of {} x {} is {:?} instead of {:?}", what, i, g.w, g.h, a, b);
            }
        }
        (g, w) => panic!("{}: {} instead of {}", what, if g.is_some() { "an image" } else { "an error" }, if w.is_some() { "an image" } else { "an error" }),
    }
}
pub fn flow_no(g: &GraphicsCommand) -> u8 {
    match g {
        GraphicsCommand::Image(i) => match i.flow {
            ImageFlow::Inline => 0,
            ImageFlow::Block => 1,
            ImageFlow::None => 2,
        },
        _ => 9,
    }
}
/// mostly small sizes, sometimes long rows or columns
pub fn dims(nd: &mut Nd) -> (u32, u32) {
    match nd.range(0, 7) {
        0 => (nd.range(0, 600), nd.range(0, 3)),
        1 => (nd.range(0, 3), nd.range(0, 600)),
        2 => (nd.range(0, 3), nd.range(0, 3)),
        _ => (nd.range(0, 30), nd.range(0, 30)),
    }
}
/// as many bytes as announced, sometimes not
pub fn amount(nd: &mut Nd, n: usize) -> Vec<u8> {
    let n = match nd.range(0, 7) {
        0 => nd.range(0, n as u32 + 9) as usize,
        1 => n + 1,
        2 => n.saturating_sub(1),
        _ => n,
    };
    nd.bytes(n)
}
pub fn colors(nd: &mut Nd) -> RenderColors {
    let mut c = || RGBA { r: nd.u8(), g: nd.u8(), b: nd.u8(), a: 255 };
    RenderColors { paper_color: c(), color_1: c(), color_2: c(), color_3: c() }
}
