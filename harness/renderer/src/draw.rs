//! C20: drawing on a canvas.
use crate::canvas::*;
use crate::nd::Nd;
use thermal_parser::graphics::*;
use thermal_renderer::image_renderer::thermal_image::ThermalImage;

/// The expected canvas after a picture (of matching size) was drawn at x, y.
fn drawn(p: &Px, (x, y, w, h): (u32, u32, u32, u32), pic: &[RGBA], multiply: bool, grow: bool, paper: RGBA) -> Px {
    let mut out = p.clone();
    if grow {
        while out.h < y + h {
            for _ in 0..out.w {
                out.px.push(t(&paper));
            }
            out.h += 1;
        }
    }
    for py in 0..h {
        for px in 0..w {
            let (cx, cy) = (x + px, y + py);
            if cx < out.w && cy < out.h {
                let k = (cy * out.w + cx) as usize;
                let mut c = rgba(out.px[k]);
                let f = pic[(py * w + px) as usize];
                if multiply {
                    c.multiply_foreground(&f);
                } else {
                    c.blend_foreground(&f);
                }
                out.px[k] = t(&c);
            }
        }
    }
    out
}
/// positions around the edges of a side
fn place(nd: &mut Nd, side: u32) -> u32 {
    match nd.range(0, 3) {
        0 => nd.range(0, side + 3),
        1 => nd.range(side.saturating_sub(2), side + 2),
        _ => nd.range(0, side),
    }
}
struct Setup {
    w: u32,
    h: u32,
    grow: bool,
    paper: RGBA,
    content: Vec<RGBA>,
}
fn setup(nd: &mut Nd) -> Setup {
    let (w, h) = sizes(nd);
    let grow = nd.bool();
    let paper = any_pixels(nd, 1, true)[0];
    let content = if nd.bool() { numbered(w, h) } else { any_pixels(nd, w * h, true) };
    Setup { w, h, grow, paper, content }
}
fn compare(got: &Px, want: &Px, what: &str) {
    assert!((got.w, got.h) == (want.w, want.h), "{}: canvas {} x {} instead of {} x {}", what, got.w, got.h, want.w, want.h);
    for k in 0..got.px.len() {
        assert!(got.px[k] == want.px[k], "{}: pixel {},{} is {:?} instead of {:?}", what, k as u32 % got.w, k as u32 / got.w, got.px[k], want.px[k]);
    }
}
/// a picture that draws nothing because it is empty or completely outside
fn outside(s: &Setup, x: u32, y: u32) -> bool {
    x >= s.w || (!s.grow && y >= s.h)
}

crate::contracts! {
    exec fn c20_put_pixels(nd) {
        let s = setup(nd);
        let (x, y) = (place(nd, s.w), place(nd, s.h));
        let (pw, ph) = match nd.range(0, 4) {
            0 => (nd.range(1, 50), nd.range(1, 4)),
            1 => (nd.range(1, 4), nd.range(1, 50)),
            _ => (nd.range(1, 9), nd.range(1, 9)),
        };
        let multiply = nd.bool();
        let n = match nd.range(0, 9) {
            0 => nd.range(0, 2 * pw * ph),
            1 => pw * ph - 1,
            2 => pw * ph + 1,
            _ => pw * ph,
        };
        let pic = any_pixels(nd, n, false);
        let (w, h, grow, paper) = (s.w, s.h, s.grow, s.paper);
        with(w, h, s.content.clone(), grow, paper, |i| {
            let before = now(i);
            let ok = i.put_pixels(x, y, pw, ph, pic.clone(), nd.bool(), multiply);
            let after = now(i);
            if n != pw * ph || outside(&s, x, y) {
                assert!(!ok && i.errors.len() == 1, "reported");
                compare(&after, &before, "nothing drawn");
            } else {
                assert!(ok && i.errors.is_empty(), "drawn without a report");
                compare(&after, &drawn(&before, (x, y, pw, ph), &pic, multiply, grow, paper), "drawn");
            }
        });
    }
    exec fn c20_empty_picture(nd) {
        let s = setup(nd);
        let (x, y) = (place(nd, s.w), place(nd, s.h));
        let (pw, ph) = if nd.bool() { (0, nd.range(0, 9)) } else { (nd.range(0, 9), 0) };
        let (w, h, grow, paper) = (s.w, s.h, s.grow, s.paper);
        with(w, h, s.content.clone(), grow, paper, |i| {
            let before = now(i);
            i.put_pixels(x, y, pw, ph, vec![], false, nd.bool());
            let after = now(i);
            // it may have grown
            assert!(after.h >= before.h && after.px[..before.px.len()] == before.px[..], "an empty picture changes no pixel");
            assert!(grow || after.h == before.h, "a locked canvas keeps its height");
        });
    }
    exec fn c20_rectangle(nd) {
        let s = setup(nd);
        let (x, y) = (place(nd, s.w), place(nd, s.h));
        let (pw, ph) = (nd.range(1, 12), nd.range(1, 12));
        let c = any_pixels(nd, 1, false)[0];
        let multiply = nd.bool();
        let (w, h, grow, paper) = (s.w, s.h, s.grow, s.paper);
        with(w, h, s.content.clone(), grow, paper, |i| {
            let before = now(i);
            if multiply && nd.bool() {
                i.put_rect(&Rectangle { x, y, w: pw, h: ph }, &c);
            } else {
                i.draw_rect(x, y, pw, ph, &c, multiply);
            }
            let after = now(i);
            let pic = vec![c; (pw * ph) as usize];
            if outside(&s, x, y) {
                compare(&after, &before, "nothing drawn");
            } else {
                compare(&after, &drawn(&before, (x, y, pw, ph), &pic, multiply, grow, paper), "rectangle");
            }
        });
    }
    exec fn c20_image(nd) {
        let s = setup(nd);
        let (x, y) = (place(nd, s.w), place(nd, s.h));
        let (pw, ph) = (nd.range(1, 9), nd.range(1, 9));
        let pixels = any_pixels(nd, pw * ph, false);
        let upside_down = nd.bool();
        let (w, h, grow, paper) = (s.w, s.h, s.grow, s.paper);
        with(w, h, s.content.clone(), grow, paper, |i| {
            let before = now(i);
            let image = Image { pixels: pixels.clone(), x, y, w: pw, h: ph, flow: ImageFlow::Block, upside_down };
            i.put_render_img(&image);
            let after = now(i);
            if outside(&s, x, y) {
                compare(&after, &before, "nothing drawn");
                return;
            }
            let mut want = drawn(&before, (x, y, pw, ph), &pixels, true, grow, paper);
            if upside_down && x + pw <= w && y + ph <= want.h {
                // the rows of its rectangle are reversed
                let flat = want.clone();
                for r in 0..ph {
                    for c in 0..pw {
                        want.px[((y + r) * w + x + c) as usize] = flat.at(x + c, y + ph - 1 - r);
                    }
                }
            }
            compare(&after, &want, "image");
        });
    }
    exec fn c20_flip(nd) {
        let s = setup(nd);
        let (x, y) = (place(nd, s.w), place(nd, s.h));
        let (pw, ph) = (nd.range(1, 9), nd.range(1, 9));
        let (w, h, grow, paper) = (s.w, s.h, s.grow, s.paper);
        with(w, h, s.content.clone(), grow, paper, |i| {
            let before = now(i);
            i.flip_pixels(x, y, pw, ph);
            let after = now(i);
            let mut want = before.clone();
            if x + pw <= w && (grow || y + ph <= h) {
                while want.h < y + ph {
                    want.px.extend(vec![t(&paper); w as usize]);
                    want.h += 1;
                }
                let flat = want.clone();
                for r in 0..ph {
                    for c in 0..pw {
                        want.px[((y + r) * w + x + c) as usize] = flat.at(x + c, y + ph - 1 - r);
                    }
                }
            }
            compare(&after, &want, "flipped");
        });
    }
    exec fn c20_history(nd) {
        // several pictures on one canvas
        let s = setup(nd);
        let (w, h, grow, paper) = (s.w, s.h, s.grow, s.paper);
        let n = nd.range(2, 5);
        with(w, h, s.content.clone(), grow, paper, |i| {
            let mut want = now(i);
            let mut reports = 0;
            for _ in 0..n {
                let (x, y) = (place(nd, w), place(nd, want.h));
                let (pw, ph) = (nd.range(1, 6), nd.range(1, 6));
                let pic = any_pixels(nd, pw * ph, false);
                let multiply = nd.bool();
                i.put_pixels(x, y, pw, ph, pic.clone(), false, multiply);
                if x >= w || (!grow && y >= want.h) {
                    reports += 1;
                } else {
                    want = drawn(&want, (x, y, pw, ph), &pic, multiply, grow, paper);
                }
            }
            compare(&now(i), &want, "several pictures");
            assert!(i.errors.len() == reports, "{} reports instead of {}", i.errors.len(), reports);
        });
    }
}
