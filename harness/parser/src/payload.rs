//! C02: commands that carry their own payload length take exactly that payload.
use crate::nd::Nd;
#[cfg(not(kani))]
use crate::stream::*;
use crate::util::*;
use std::mem::ManuallyDrop;
use thermal_parser::command::*;
use thermal_parser::commands::*;

#[cfg(not(kani))]
fn name_of(c: Command) -> std::rc::Rc<String> {
    c.name
}
/// What a self-sized command looks like on the wire, and what the parser must make of it.
#[cfg(not(kani))]
struct Sized_ {
    op: &'static [u8],
    header: Vec<u8>,
    payload: Vec<u8>,
    tail: Vec<u8>,
    /// are the header bytes part of the data of the command (or kept apart)
    header_in_data: bool,
    name: std::rc::Rc<String>,
}
#[cfg(not(kani))]
fn size(nd: &mut Nd, small: u32, large: u32) -> u32 {
    if nd.range(0, 15) == 9 { nd.range(0, large) } else { nd.range(0, small) }
}
#[cfg(not(kani))]
fn sized(nd: &mut Nd) -> Sized_ {
    match nd.range(0, 5) {
        0 => {
            let m = nd.pick(&[0u8, 1, 32, 33]);
            let w = size(nd, 6, 600);
            let n = w as usize * if m >= 32 { 3 } else { 1 };
            Sized_ { op: &[0x1b, b'*'], header: vec![m, w as u8, (w >> 8) as u8], payload: nd.bytes(n), tail: vec![], header_in_data: false, name: name_of(bit_image::new()) }
        }
        1 => {
            let (x, y) = if nd.bool() { (size(nd, 4, 300), nd.range(0, 4)) } else { (nd.range(0, 3), size(nd, 6, 700)) };
            let m = nd.pick(&[0u8, 1, 2, 3, 48, 49, 50, 51]);
            Sized_ {
                op: &[0x1d, b'v', b'0'], header: vec![m, x as u8, (x >> 8) as u8, y as u8, (y >> 8) as u8],
                payload: nd.bytes((x * y) as usize), tail: vec![], header_in_data: false, name: name_of(raster_bit_image::new()),
            }
        }
        2 => {
            let m = nd.pick(&[0u8, 1, 48, 49, 65, 66, 97, 98, 103, 104]);
            let n = if matches!(m, 0 | 1 | 48 | 49) { 0 } else { 1 };
            Sized_ { op: &[0x1d, b'V'], header: vec![m], payload: nd.bytes(n), tail: vec![], header_in_data: true, name: name_of(feed_and_cut::new()) }
        }
        3 => {
            let n = size(nd, 4, 700).max(1);
            Sized_ { op: &[0x1d, b'(', b'N'], header: vec![n as u8, (n >> 8) as u8], payload: nd.bytes(n as usize), tail: vec![], header_in_data: true, name: name_of(set_character_effects::new()) }
        }
        4 => {
            let n = size(nd, 15, 400) as usize;
            let d: Vec<u8> = nd.bytes(n).into_iter().map(|b| if b == 0 { 0x1b } else { b }).collect();
            Sized_ { op: &[0x1d, b'k'], header: vec![nd.range(0, 6) as u8], payload: d, tail: vec![0], header_in_data: false, name: name_of(barcode::new()) }
        }
        _ => {
            let n = size(nd, 15, 255);
            Sized_ { op: &[0x1d, b'k'], header: vec![nd.range(65, 79) as u8, n as u8], payload: nd.bytes(n as usize), tail: vec![], header_in_data: false, name: name_of(barcode::new()) }
        }
    }
}

crate::contracts! {
    exec fn c02_raster_step(nd) {
        let h = [nd.u8(), nd.u8(), nd.u8(), nd.u8(), nd.u8()];
        let w = h[1] as usize + 256 * h[2] as usize;
        let rows = h[3] as usize + 256 * h[4] as usize;
        #[cfg(not(kani))]
        {
            nd.assume(w * rows < 20000);
            let d = nd.bytes(w * rows);
            let c = fed(raster_bit_image::new(), &[&h[..], &d[..]].concat());
            assert!(c.data == d, "row bytes times rows");
            let mut c = c;
            assert!(!c.push(nd.u8()), "nothing behind the payload is taken");
        }
    }
    exec fn c02_large_payloads(nd) {
        // payloads beyond 16 bit sizes, whose bytes look like commands
        let big = nd.range(60_000, 140_000) as usize;
        let w = nd.pick(&[1usize, 2, 3, 72, 100, 255, 256, 257, 511, 512, 1000, 4096, 40_000, 65_535]);
        let h = (big / w).clamp(1, 65_535);
        let fill = nd.pick(&[0u8, 0x1b, 0x1d, 0x0a, 0xff]);
        let (op, n): (Vec<u8>, usize) = match nd.range(0, 2) {
            0 => (vec![0x1d, b'v', b'0', 0, w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8], w * h),
            1 => (vec![0x1b, b'*', 33, h as u8, (h >> 8) as u8], 3 * h),
            _ => (vec![0x1d, b'(', b'N', h as u8, (h >> 8) as u8], h),
        };
        #[cfg(not(kani))]
        {
            let mut v = op;
            v.extend(std::iter::repeat(fill).take(n));
            v.extend(b"end");
            let got = parsed(&v);
            assert!(got.len() == 2 && got[1].data == b"end", "the {} announced bytes of {:02x?} are taken, and no more", n, &v[..8]);
        }
    }
    exec fn c02_effects_step(nd) {
        let h = [nd.u8(), nd.u8(), nd.u8()];
        let n = h[0] as usize + 256 * h[1] as usize;
        nd.assume(n >= 1);
        #[cfg(not(kani))]
        {
            let d = nd.bytes(n - 1);
            let mut c = fed(set_character_effects::new(), &[&h[..], &d[..]].concat());
            assert!(c.data.len() == 2 + n && c.data[3..] == d[..], "the announced number of parameters");
            assert!(!c.push(nd.u8()), "nothing behind the parameters is taken");
        }
    }
    exec fn c02_sized_barcode_step(nd) {
        let h = [nd.range(65, 79) as u8, nd.u8()];
        #[cfg(not(kani))]
        {
            let d = nd.bytes(h[1] as usize);
            let mut c = fed(barcode::new(), &[&h[..], &d[..]].concat());
            assert!(c.data == d, "the announced number of bytes");
            assert!(!c.push(nd.u8()), "nothing behind the data is taken");
        }
    }
    full 8 fn c02_terminated_barcode_step(nd) {
        let kind = nd.range(0, 6) as u8;
        let mut c = fed(barcode::new(), &[kind]);
        let len = c.data.len();
        let b = nd.u8();
        assert!(c.push(b), "everything up to the terminator is taken");
        assert!(c.data.len() == if b == 0 { len } else { len + 1 }, "the terminator is not data");
        let next = nd.u8();
        let took = c.push(next);
        assert!(took == (b != 0), "nothing behind the terminator is taken");
    }
    full 8 fn c02_cut_step(nd) {
        let m = nd.pick(&[0u8, 1, 48, 49, 65, 66, 97, 98, 103, 104]);
        let n = if matches!(m, 0 | 1 | 48 | 49) { 0usize } else { 1 };
        let mut c = ManuallyDrop::new(feed_and_cut::new());
        assert!(c.push(m), "a cut has a mode");
        let took = c.push(nd.u8());
        assert!(took == (n == 1), "a feed amount is taken by the feeding forms only");
        if took {
            assert!(!c.push(nd.u8()), "one feed amount");
        }
        assert!(c.data.len() == 1 + n);
    }
    exec fn c02_column_image(nd) {
        // every header, up to 4 payload bytes (the counter of the handler is private)
        let h = [nd.pick(&[0u8, 1, 32, 33]), nd.u8(), nd.u8()];
        let w = h[1] as usize + 256 * h[2] as usize;
        let capacity = w * if h[0] >= 32 { 3 } else { 1 };
        let mut c = fed(bit_image::new(), &h);
        assert!(c.data.len() == 0);
        let max = nd.bound(4, 2000) as usize;
        let n = if capacity < max { capacity } else { max };
        let mut i = 0;
        while i < n {
            assert!(c.push(nd.u8()), "the announced number of columns is taken");
            i += 1;
        }
        if n == capacity {
            assert!(!c.push(nd.u8()), "nothing behind the columns is taken");
        }
        assert!(c.data.len() == n);
    }
    exec fn c02_stream(nd) {
        let n = nd.range(1, 4);
        let mut bytes = vec![];
        let mut want = vec![];
        if nd.bool() {
            let t = text(nd, 4);
            want.push((vec![], t.clone(), vec![], text::new().name));
            bytes.extend(t);
        }
        let truncate = nd.range(0, 4) == 0;
        for i in 0..n {
            let mut s = sized(nd);
            if truncate && i == n - 1 && s.payload.len() > 0 {
                let k = nd.range(0, s.payload.len() as u32 - 1) as usize;
                s.payload.truncate(k);
                s.tail.clear();
            }
            bytes.extend(s.op);
            bytes.extend(&s.header);
            bytes.extend(&s.payload);
            bytes.extend(&s.tail);
            let data = if s.header_in_data { [&s.header[..], &s.payload[..]].concat() } else { s.payload.clone() };
            want.push((s.op.to_vec(), data, [s.op, &s.header[..], &s.payload[..], &s.tail[..]].concat(), s.name));
            if !(truncate && i == n - 1) {
                // and something right behind it
                match nd.range(0, 2) {
                    0 => {
                        let (op, k, new) = FIXED[nd.range(0, FIXED.len() as u32 - 1) as usize];
                        let d = nd.bytes(k);
                        bytes.extend(op);
                        bytes.extend(&d);
                        want.push((op.to_vec(), d, vec![], new().name));
                    }
                    1 => {
                        let t = text(nd, 4);
                        want.push((vec![], t.clone(), vec![], text::new().name));
                        bytes.extend(t);
                    }
                    _ => {}
                }
            }
        }
        let got = parsed(&bytes);
        for (i, w) in want.iter().enumerate() {
            assert!(i < got.len(), "every command of {:02x?} is there", bytes);
            let g = &got[i];
            assert!(g.commands.as_slice() == w.0 && g.data == w.1 && g.name == w.3, "item {} of {:02x?}: {} {:02x?} {:02x?} instead of {} {:02x?} {:02x?}",
                i, bytes, g.name, g.commands, g.data, w.3, w.0, w.1);
            if !w.2.is_empty() {
                let (a, b) = g.handler.get_command_bytes(g);
                assert!([a, b].concat() == w.2, "the command knows its own bytes");
            }
        }
        assert!(got.len() == want.len(), "nothing else is in {:02x?}", bytes);
    }
}
