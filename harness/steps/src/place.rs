//! C23: where images, barcodes and 2D codes are placed, for every printer state.
use crate::nd::Nd;
use crate::seen::*;
use crate::snap::*;
use std::mem::ManuallyDrop;
use thermal_parser::context::*;
use thermal_parser::graphics::*;
use thermal_parser::text::TextSpan;

const MAX: u32 = 1 << 28;
fn any(nd: &mut Nd) -> (ManuallyDrop<Context>, Snap) {
    let mut c = fresh();
    havoc_places(nd, &mut c, MAX);
    c.text.line_spacing = nd.u8();
    c.text.justify = nd_justify(nd);
    let s = snap(&c);
    (c, s)
}
/// position (relative to the left edge), width of the line
struct Place {
    x: u32,
    y: u32,
    base: u32,
    w: u32,
}
fn place(s: &Snap) -> Place {
    if s.page.enabled {
        Place { x: s.page.render.x, y: s.page.render.y, base: s.page.page.x, w: s.page.render.w }
    } else {
        Place { x: s.graphics.render_area.x, y: s.graphics.render_area.y, base: 0, w: s.graphics.render_area.w }
    }
}
fn put(s: &mut Snap, x: u32, y: u32) {
    let r = if s.page.enabled { &mut s.page.render } else { &mut s.graphics.render_area };
    r.x = x;
    r.y = y;
}
fn offset(s: &Snap, w: u32) -> u32 {
    let line = place(s).w;
    if w > line {
        return 0;
    }
    match s.text.justify {
        0 => 0,
        1 => (line - w) / 2,
        _ => line - w,
    }
}

crate::contracts! {
    full 10 fn c23_step_image(nd) {
        let (c, mut want) = any(nd);
        let (w, h) = (nd.u32(), nd.u32());
        nd.assume(w < MAX && h < MAX);
        let which = nd.range(0, 2);
        let p = place(&want);
        let mut image = ManuallyDrop::new(Image {
            pixels: vec![],
            w,
            h,
            x: 0,
            y: 0,
            flow: match which {
                0 => ImageFlow::Inline,
                1 => ImageFlow::Block,
                _ => ImageFlow::None,
            },
            upside_down: false,
        });
        let (c, seen) = step(c, |r| r.verif_image(&mut image));
        let at = match which {
            0 => {
                // inline: wraps when it does not fit what remains of the line
                let used = p.x.saturating_sub(p.base);
                let (x, y) = if w > p.w.saturating_sub(used) { (p.base, p.y + want.text.line_spacing as u32) } else { (p.x, p.y) };
                put(&mut want, x + w, y);
                (x, y)
            }
            1 if !want.page.enabled => {
                let x = offset(&want, w);
                put(&mut want, 0, p.y + h);
                (x, p.y)
            }
            _ => (p.x, p.y),
        };
        assert!(seen == Seen { images: 1, image: Rect { x: at.0, y: at.1, w, h }, ..NOTHING }, "the image is printed once, at its place");
        assert!(snap(&c) == want, "and the position is the one after it");
    }
    exec fn c23_step_barcode(nd) {
        let (mut c, _) = any(nd);
        c.barcode.human_readable = HumanReadableInterface::None;
        let mut want = snap(&c);
        // one light module, two dark ones
        let n = 3;
        let (w, h) = (nd.u8(), nd.u8());
        let mut points = vec![];
        let mut dark = [false; 3];
        let mut i = 0;
        while i < n {
            dark[i] = i > 0;
            points.push(dark[i] as u8);
            i += 1;
        }
        let code = ManuallyDrop::new(Barcode { points, point_width: w, point_height: h, hri: HumanReadableInterface::None, text: TextSpan::new(String::new(), &c) });
        let p = place(&want);
        let (c, seen) = step(c, |r| r.verif_barcode(&code));
        let start = offset(&want, n as u32 * w as u32) + p.base;
        let mut rects = 0;
        let mut i = 0;
        while i < n {
            let x = start + i as u32 * w as u32;
            if dark[i] && (x - p.base) + w as u32 <= p.w {
                assert!(seen.rect[rects] == Rect { x, y: p.y, w: w as u32, h: h as u32 }, "a dark module is a rectangle at its column");
                rects += 1;
            }
            i += 1;
        }
        assert!(seen.graphics == 1 && seen.rects == rects && seen.texts == 0, "one rectangle for each dark module inside of the print area");
        put(&mut want, p.base, p.y + h as u32);
        assert!(snap(&c) == want, "printing continues at the left edge below");
    }
    exec fn c23_step_code2d(nd) {
        let (c, mut want) = any(nd);
        let (w, h) = (nd.u8() as u32, nd.u8() as u32);
        // 2 x 2 modules
        let mut points = vec![];
        let mut dark = [false; 4];
        let mut i = 0;
        while i < 4 {
            dark[i] = i == 1 || i == 2;
            points.push(dark[i] as u8);
            i += 1;
        }
        let code = ManuallyDrop::new(Code2D { points, width: 2, point_width: w, point_height: h });
        let p = place(&want);
        let (c, seen) = step(c, |r| r.verif_code_2d(&code));
        let start = offset(&want, 2 * w) + p.base;
        let mut rects = 0;
        let mut i = 0;
        while i < 4 {
            let x = start + (i as u32 % 2) * w;
            if dark[i] && (x - p.base) + w <= p.w {
                assert!(seen.rect[rects] == Rect { x, y: p.y + (i as u32 / 2) * h, w, h }, "a dark module is a rectangle at its column and row");
                rects += 1;
            }
            i += 1;
        }
        assert!(seen.graphics == 1 && seen.rects == rects, "one rectangle for each dark module inside of the print area");
        put(&mut want, p.base, p.y + h);
        let got = snap(&c);
        // the row after a 2D code is not part of the contract
        put(&mut want, p.base, place(&got).y);
        assert!(got == want, "printing continues at the left edge");
    }
}
