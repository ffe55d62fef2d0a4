//! C21: growing and cropping.
use crate::canvas::*;
use crate::nd::Nd;
use thermal_parser::graphics::RGBA;
use thermal_renderer::image_renderer::thermal_image::ThermalImage;

fn content(nd: &mut Nd, w: u32, h: u32) -> Vec<RGBA> {
    if nd.bool() { numbered(w, h) } else { any_pixels(nd, w * h, false) }
}
fn margins(before: &Px, after: &Px, left: u32, top: u32, paper: RGBA) {
    for y in 0..after.h {
        for x in 0..after.w {
            let want = if x >= left && x < left + before.w && y >= top && y < top + before.h { before.at(x - left, y - top) } else { t(&paper) };
            assert!(after.at(x, y) == want, "pixel {},{} of {} x {} (was {} x {}) is {:?} instead of {:?}", x, y, after.w, after.h, before.w, before.h, after.at(x, y), want);
        }
    }
}

crate::contracts! {
    exec fn c21_height(nd) {
        let (w, h) = sizes(nd);
        let n = nd.range(0, h + 12);
        let (grow, paper) = (nd.bool(), any_pixels(nd, 1, true)[0]);
        let c = content(nd, w, h);
        with(w, h, c, grow, paper, |i| {
            let before = now(i);
            i.expand_to_height(n);
            let after = now(i);
            assert!((after.w, after.h) == (w, h.max(n)), "{} x {} grown to height {} is {} x {}", w, h, n, after.w, after.h);
            margins(&before, &after, 0, 0, paper);
        });
    }
    exec fn c21_width(nd) {
        let (w, h) = sizes(nd);
        let n = nd.range(0, w + 12);
        let (grow, paper) = (nd.bool(), any_pixels(nd, 1, true)[0]);
        let c = content(nd, w, h);
        with(w, h, c, grow, paper, |i| {
            let before = now(i);
            i.expand_to_width(n);
            let after = now(i);
            if n <= w {
                assert!(after == before, "a smaller width changes nothing");
                return;
            }
            assert!((after.w, after.h) == (n, h), "{} x {} grown to width {} is {} x {}", w, h, n, after.w, after.h);
            // centred: an odd pixel may go to either side
            let half = (n - w) / 2;
            let left = if (n - w) % 2 == 1 && h > 0 && after.at(half, 0) != before.at(0, 0) { half + 1 } else { half };
            margins(&before, &after, left, 0, paper);
        });
    }
    exec fn c21_top_margin(nd) {
        let (w, h) = sizes(nd);
        let n = nd.range(0, 12);
        let (grow, paper) = (nd.bool(), any_pixels(nd, 1, true)[0]);
        let c = content(nd, w, h);
        with(w, h, c, grow, paper, |i| {
            let before = now(i);
            i.add_top_margin(n);
            let after = now(i);
            assert!((after.w, after.h) == (w, h + n), "a top margin of {} on {} x {} gives {} x {}", n, w, h, after.w, after.h);
            margins(&before, &after, 0, n, paper);
        });
    }
    exec fn c21_crop(nd) {
        let (w, h) = (nd.range(0, 20), nd.range(0, 20));
        let pixels = any_pixels(nd, w * h, false);
        let (mw, mh) = (nd.range(0, 22), nd.range(0, 22));
        let crop_height = nd.bool();
        let (cw, ch, px) = ThermalImage::crop_pixels(&pixels, w, h, mw, mh, crop_height);
        let (ww, wh) = (w.min(mw), if crop_height { h.min(mh) } else { h });
        assert!((cw, ch) == (ww, wh), "{} x {} cropped to {} x {} is {} x {}", w, h, mw, mh, cw, ch);
        assert!(px.len() as u32 == cw * ch, "as many pixels as its size");
        for y in 0..ch {
            for x in 0..cw {
                assert!(px[(y * cw + x) as usize] == pixels[(y * w + x) as usize], "pixel {},{} of the top left part", x, y);
            }
        }
    }
    exec fn c21_history(nd) {
        // growing in any order keeps the picture
        let (w, h) = sizes(nd);
        nd.assume(h > 0);
        let paper = RGBA { r: 200, g: 201, b: 202, a: 255 };
        with(w, h, numbered(w, h), true, paper, |i| {
            let first = now(i);
            let (mut left, mut top) = (0u32, 0u32);
            for _ in 0..nd.range(1, 5) {
                let b = now(i);
                match nd.range(0, 2) {
                    0 => i.expand_to_height(nd.range(0, b.h + 5)),
                    1 => {
                        let n = b.w + 2 * nd.range(0, 3);
                        i.expand_to_width(n);
                        left += (n - b.w) / 2;
                    }
                    _ => {
                        let n = nd.range(0, 4);
                        i.add_top_margin(n);
                        top += n;
                    }
                }
            }
            let a = now(i);
            margins(&first, &a, left, top, paper);
        });
    }
}
