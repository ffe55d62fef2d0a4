//! C18: the print buffer.
use crate::decode::*;
use crate::nd::Nd;
use crate::rec::*;
use crate::stream::*;
use crate::util::*;
use thermal_parser::context::*;
use thermal_parser::graphics::*;

/// a store command and the picture it stores (None: an error)
fn store(nd: &mut Nd, colors: &RenderColors) -> (Vec<u8>, Option<Pic>) {
    let by_column = nd.bool();
    let (w, h) = if nd.range(0, 3) == 0 { (nd.range(0, 20), nd.range(0, 20)) } else { (nd.range(1, 9), nd.range(1, 9)) };
    let (bx, by) = (nd.pick(&[1u8, 1, 2, 0, 3, 48, 255]), nd.pick(&[1u8, 1, 2, 0, 3, 48, 255]));
    let c = if nd.range(0, 9) == 0 { nd.u8() } else { nd.range(48, 52) as u8 };
    let mut d = vec![48, bx, by, c, w as u8, 0, h as u8, 0];
    let len = if by_column { column_len(w, h) } else { raster_len(w, h) };
    d.extend(nd.bytes(len));
    match nd.range(0, 24) {
        0 => { d.pop(); }
        1 => d.push(nd.u8()),
        2 => { let k = nd.range(0, d.len() as u32) as usize; d.truncate(k); }
        _ => {}
    }
    let pic = if d.len() < 8 {
        None
    } else {
        let col = colour_no(c, colors);
        let p = if by_column { column(w, h, col, &d[8..]) } else { raster(w, h, col, &d[8..]) };
        p.map(|p| scaled(&p, bx.clamp(1, 2) as u32, by.clamp(1, 2) as u32))
    };
    (envelope_graphics(if by_column { 113 } else { 112 }, &d), pic)
}
/// a command that is neither a store, a print of the buffer nor initialize
fn other(nd: &mut Nd) -> Vec<u8> {
    loop {
        match nd.range(0, 5) {
            0 | 1 => {
                let (op, n, _) = FIXED[nd.range(0, FIXED.len() as u32 - 1) as usize];
                if op == [0x1b, b'@'] {
                    continue;
                }
                let mut v = op.to_vec();
                v.extend(nd.bytes(n));
                return v;
            }
            2 => {
                let f = nd.pick(&[0u8, 48, 1, 49, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 4, 52]);
                return graphics(nd, f);
            }
            3 => return barcode(nd),
            4 => {
                let mut v = vec![0x1d, b'v', b'0', 0, 1, 0, 2, 0];
                v.extend(nd.bytes(2));
                return v;
            }
            _ => return text(nd, 4),
        }
    }
}
fn print(nd: &mut Nd) -> Vec<u8> {
    let f = nd.pick(&[2u8, 50]);
    envelope_graphics(f, &[])
}
/// what printing the buffer gives: nothing, a picture or an error
fn combined(buffer: &[Option<Pic>]) -> Option<Option<Pic>> {
    if buffer.is_empty() {
        return None;
    }
    let pics: Option<Vec<Pic>> = buffer.iter().cloned().collect();
    Some(pics.and_then(|p| overlay(&p)))
}

crate::contracts! {
    exec fn c18_job_history(nd) {
        let colors = Context::new().graphics.render_colors;
        let steps = nd.range(1, 9);
        let mut v = vec![];
        let mut buffer: Vec<Option<Pic>> = vec![];
        // what each step prints from the buffer, and the length of the stream up to it
        let mut want: Vec<Pic> = vec![];
        let mut errors = 0;
        let others = nd.bool();
        for _ in 0..steps {
            match nd.range(0, 9) {
                0..=4 => {
                    let (b, p) = store(nd, &colors);
                    v.extend(b);
                    buffer.push(p);
                }
                5 | 6 if others => {
                    // changes of state only
                    v.extend(nd.pick(&[&[0x1b, b'a', 1][..], &[0x1b, b'E', 1], &[0x1b, b'L'], &[0x1b, b'S'], &[0x0a], &[b'x'], &[0x1b, b'J', 9], &[0x1b, b'3', 9]]));
                }
                9 if others => {
                    v.extend([0x1b, b'@']);
                    buffer.clear();
                }
                _ => {
                    v.extend(print(nd));
                    match combined(&buffer) {
                        None => {}
                        Some(Some(p)) => want.push(p),
                        Some(None) => errors += 1,
                    }
                    buffer.clear();
                }
            }
        }
        let j = job(&v);
        let got: Vec<Image> = j.events.iter().filter_map(|e| match &e.what {
            What::Image(i) => Some(i.clone()),
            _ => None,
        }).collect();
        assert!(got.len() == want.len(), "{} pictures printed instead of {}", got.len(), want.len());
        for (g, w) in got.into_iter().zip(want) {
            check(&GraphicsCommand::Image(g), &Some(w), "print buffer");
        }
        assert!(j.errors == errors, "{} errors instead of {}", j.errors, errors);
        let left = &j.end.as_ref().unwrap().graphics.buffer_graphics;
        assert!(left.len() == buffer.len(), "{} graphics left in the buffer instead of {}", left.len(), buffer.len());
        for (g, w) in left.iter().zip(&buffer) {
            check(g, w, "buffered graphic");
        }
    }
    exec fn c18_job_others(nd) {
        // no other command touches the buffer
        let colors = Context::new().graphics.render_colors;
        let mut v = vec![];
        let mut buffer = vec![];
        for _ in 0..nd.range(0, 3) {
            let (b, p) = store(nd, &colors);
            v.extend(b);
            buffer.push(p);
        }
        for _ in 0..nd.range(1, 4) {
            v.extend(other(nd));
        }
        let j = job(&v);
        let left = &j.end.as_ref().unwrap().graphics.buffer_graphics;
        assert!(left.len() == buffer.len(), "{} graphics in the buffer instead of {} after {:02x?}", left.len(), buffer.len(), v);
        for (g, w) in left.iter().zip(&buffer) {
            check(g, w, "buffered graphic");
        }
    }
}
