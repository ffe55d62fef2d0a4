//! C19: rotations.
use crate::canvas::*;
use crate::nd::Nd;
use thermal_parser::graphics::RGBA;
use thermal_renderer::image_renderer::thermal_image::ThermalImage;

const WHITE: RGBA = RGBA { r: 255, g: 255, b: 255, a: 255 };
fn turn(i: &mut ThermalImage, q: u32) {
    match q {
        1 => i.rotate_90(),
        2 => i.rotate_180(),
        _ => i.rotate_270(),
    }
}
fn turned(p: &Px, q: u32) -> Px {
    let (w, h) = if q % 2 == 1 { (p.h, p.w) } else { (p.w, p.h) };
    let mut px = vec![(0, 0, 0, 0); (w * h) as usize];
    for y in 0..p.h {
        for x in 0..p.w {
            let (nx, ny) = match q {
                0 => (x, y),
                1 => (p.h - 1 - y, x),
                2 => (p.w - 1 - x, p.h - 1 - y),
                _ => (y, p.w - 1 - x),
            };
            px[(ny * w + nx) as usize] = p.at(x, y);
        }
    }
    Px { w, h, px }
}

crate::contracts! {
    exec fn c19_turn(nd) {
        let (w, h) = sizes(nd);
        let q = nd.range(1, 3);
        let (grow, paper) = (nd.bool(), any_pixels(nd, 1, true)[0]);
        let content = if nd.bool() { numbered(w, h) } else { any_pixels(nd, w * h, false) };
        with(w, h, content, grow, paper, |i| {
            let before = now(i);
            turn(i, q);
            // a canvas without rows has no place to keep its width
            let after = now(i);
            let want = turned(&before, q);
            assert!(after.px == want.px && (h == 0 || (after.w, after.h) == (want.w, want.h)), "{} quarter turns of {} x {}: {:?} instead of {:?}", q, w, h, after, want);
        });
    }
    exec fn c19_sequence(nd) {
        let (w, h) = sizes(nd);
        nd.assume(h > 0);
        let n = nd.range(2, 6);
        let mut sum = 0;
        with(w, h, numbered(w, h), nd.bool(), WHITE, |i| {
            let before = now(i);
            for _ in 0..n {
                let q = nd.range(1, 3);
                sum += q;
                turn(i, q);
            }
            assert!(now(i) == turned(&before, sum % 4), "{} quarter turns in {} steps", sum, n);
        });
    }
}
