//! C11: direction changes turn the page.
use crate::nd::Nd;
use crate::rec::*;

fn turns(j: &Job) -> Vec<(u32, u8)> {
    j.events.iter().filter_map(|e| match &e.what {
        What::Area { turn, direction, .. } => Some((*turn, *direction)),
        _ => None,
    }).collect()
}

crate::contracts! {
    exec fn c11_job_turns(nd) {
        let mut v = vec![0x1b, b'L'];
        let steps = nd.range(1, 10);
        let mut dir = 0u32;
        let mut want = vec![];
        for _ in 0..steps {
            let old = dir;
            match nd.range(0, 3) {
                0 => v.extend(area_command(nd, 300, 300)),
                _ => {
                    let d = if nd.range(0, 3) == 0 { nd.u8() } else { nd.range(0, 3) as u8 + if nd.bool() { 48 } else { 0 } };
                    v.extend([0x1b, b'T', d]);
                    dir = match d {
                        1 | 49 => 1,
                        2 | 50 => 2,
                        3 | 51 => 3,
                        _ => 0,
                    };
                }
            }
            want.push(((dir + 4 - old) % 4, dir as u8));
            // nothing in between turns the page
            if nd.range(0, 3) == 0 {
                v.extend([0x1b, b'E', 1, b'a', 0x1b, b'J', 3]);
            }
        }
        let got = turns(&job(&v));
        assert!(got == want, "turns {:?} instead of {:?}", got, want);
        let sum: u32 = got.iter().map(|t| t.0).sum();
        assert!(sum % 4 == dir, "the changes compose to the direct change");
    }
    exec fn c11_job_page(nd) {
        // a mark stays where it is whatever directions follow, and the page is printed upright
        let side = nd.range(20, 60);
        let area = [0x1b, b'W', 0, 0, 0, 0, side as u8, 0, side as u8, 0];
        let (x, y) = (nd.range(0, 2), nd.range(0, side - 9));
        let mut v = vec![0x1b, b'L'];
        v.extend(area);
        let first = nd.range(0, 3) as u8;
        v.extend([0x1b, b'T', first]);
        // a mark somewhere in this direction
        v.extend([0x1b, b'J', y as u8, 0x1b, b'*', 0, x as u8, 0]);
        v.extend(vec![0; x as usize]);
        v.extend([0x1b, b'*', 0, 8, 0, 0xff, 0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0xf0]);
        let mut w = v.clone();
        for _ in 0..nd.range(0, 5) {
            w.extend([0x1b, b'T', nd.range(0, 4) as u8]);
            if nd.range(0, 2) == 0 {
                w.extend(area);
            }
        }
        v.push(0x0c);
        w.push(0x0c);
        let (a, b) = (paper(&v), paper(&w));
        assert!(a[0].width == b[0].width && a[0].height == b[0].height && a[0].bytes == b[0].bytes, "the page is printed as it was drawn, whatever the directions afterwards");
        assert!(a[0].bytes.iter().any(|p| *p != 255), "the mark is on the page");
    }
    exec fn c11_job_twice(nd) {
        // printing the page leaves it as it was drawn, in the print direction it is drawn in
        let side = nd.range(24, 90);
        let area = [0x1b, b'W', 0, 0, 0, 0, side as u8, 0, side as u8, 0];
        let mut v = vec![0x1b, b'L'];
        v.extend(area);
        for _ in 0..nd.range(1, 3) {
            v.extend([0x1b, b'T', nd.range(0, 3) as u8]);
            if nd.bool() {
                v.extend(area);
            }
        }
        v.extend([0x1b, b'*', 0, 8, 0]);
        v.extend(nd.bytes(8));
        let more = match nd.range(0, 3) {
            0 => vec![],
            1 => vec![0x1b, b'J', 9],
            2 => vec![0x1b, b'T', nd.range(0, 3) as u8],
            _ => area.to_vec(),
        };
        let mut last = vec![0x1b, b'*', 0, 4, 0];
        last.extend(nd.bytes(4));
        last.extend([0x1b, 0x0c]);
        let mut one = v.clone();
        one.extend(&more);
        one.extend(&last);
        let mut first = v.clone();
        first.extend([0x1b, 0x0c]);
        let mut both = first.clone();
        both.extend(&more);
        both.extend(&last);
        let (f, o, b) = (&paper(&first)[0], &paper(&one)[0], &paper(&both)[0]);
        let c = thermal_parser::context::Context::new();
        let top = (c.graphics.render_area.y + 2 * c.text.line_spacing as u32) as usize;
        let row = o.width as usize * 3;
        let n = side as usize * row;
        assert!(f.width == o.width && b.width == o.width);
        assert!(b.bytes[top * row..top * row + n] == f.bytes[top * row..top * row + n], "the first page is printed as it was drawn");
        assert!(b.bytes[top * row + n..top * row + 2 * n] == o.bytes[top * row..top * row + n], "the page is in the print direction again after it was printed");
    }
    exec fn c11_job_upright(nd) {
        // the same mark drawn from another direction comes out turned by that direction
        let side = 40u32;
        let dir = nd.range(0, 3);
        let mut v = vec![0x1b, b'L', 0x1b, b'W', 0, 0, 0, 0, side as u8, 0, side as u8, 0, 0x1b, b'T', dir as u8];
        let data = nd.bytes(8);
        v.extend([0x1b, b'*', 0, 8, 0]);
        v.extend(&data);
        v.push(0x0c);
        let o = &paper(&v)[0];
        let c = thermal_parser::context::Context::new();
        let left = (c.graphics.paper_area.w - c.graphics.render_area.w) / 2;
        let top = c.graphics.render_area.y + 2 * c.text.line_spacing as u32;
        let f = factors();
        for py in 0..side {
            for px in 0..side {
                // where this pixel of the page is in the print direction
                let (mx, my) = match dir {
                    0 => (px, py),
                    1 => (side - 1 - py, px),
                    2 => (side - 1 - px, side - 1 - py),
                    _ => (py, side - 1 - px),
                };
                // dots of 8 dot single density, printed at the start of the area (scaled as in C14)
                let at = (((top + py) * o.width + left + px) * 3) as usize;
                let black = o.bytes[at] == 0;
                let want = mark(&data, mx, my, f);
                assert!(black == want, "direction {}: pixel {},{} of the page", dir, px, py);
            }
        }
    }
}
/// single density 8 dot column image: 2 x 3
fn mark(data: &[u8], x: u32, y: u32, (fx, fy): (u32, u32)) -> bool {
    let (cx, cy) = (x / fx, y / fy);
    cx < 8 && cy < 8 && (data[cx as usize] >> (7 - cy)) & 1 == 1
}
fn factors() -> (u32, u32) {
    // measured on an image of the same command in standard mode
    let j = job(&[0x1b, b'*', 0, 8, 0, 1, 1, 1, 1, 1, 1, 1, 1]);
    match j.events.iter().find_map(|e| match &e.what {
        What::Image(i) => Some((i.w / 8, i.h / 8)),
        _ => None,
    }) {
        Some(f) => f,
        None => panic!("the image is printed"),
    }
}
