//! C23: places of barcodes, 2D codes and images.
use crate::nd::Nd;
use crate::rec::*;
use crate::stream::text;
use crate::util::*;
use thermal_parser::context::*;
use thermal_parser::graphics::*;

/// a state, perhaps with text in front
fn before(nd: &mut Nd) -> Vec<u8> {
    let mut v = any_setup(nd);
    if nd.range(0, 3) == 0 {
        let t = text(nd, 6);
        v.extend(t);
    }
    v
}
/// the graphics the last command of the stream asks for in that state
fn asked(cmd: &[u8], c: &Context) -> Option<GraphicsCommand> {
    let v = parsed(cmd);
    let k = v.last().unwrap();
    k.handler.get_graphics(k, c)
}
fn last_graphics(j: &Job) -> Option<(&Ev, &Vec<[u32; 4]>)> {
    j.events.iter().rev().find_map(|e| match &e.what {
        What::Graphics(g) => Some((e, g)),
        _ => None,
    })
}
/// the left edge of something that wide
fn justified(c: &Context, w: u32) -> u32 {
    let width = c.get_width();
    let rest = width.saturating_sub(w);
    match c.text.justify {
        TextJustify::Left => 0,
        TextJustify::Center => rest / 2,
        TextJustify::Right => rest,
    }
}
/// dark modules (column, row) as rectangles
fn modules(dark: &[(u32, u32)], x: u32, y: u32, pw: u32, ph: u32, base: u32, width: u32) -> Vec<[u32; 4]> {
    dark.iter().map(|(c, r)| [x + c * pw, y + r * ph, pw, ph]).filter(|r| r[0] + r[2] - base <= width).collect()
}
fn sorted(mut v: Vec<[u32; 4]>) -> Vec<[u32; 4]> {
    v.sort_by_key(|r| (r[1], r[0], r[2], r[3]));
    v
}

crate::contracts! {
    exec fn c23_job_code2d(nd) {
        let mut v = before(nd);
        v.extend(envelope2d((49, 65), &[50, 0]));
        v.extend(envelope2d((49, 67), &[nd.range(1, 9) as u8]));
        v.extend(envelope2d((49, 69), &[48 + nd.range(0, 3) as u8]));
        let mut d = vec![48];
        for _ in 0..nd.range(1, 60) {
            d.push(nd.range(48, 90) as u8);
        }
        v.extend(envelope2d((49, 80), &d));
        let a = job(&v);
        let c = a.end.as_ref().unwrap();
        let cmd = envelope2d((49, 81), &[48]);
        v.extend(&cmd);
        let code = match asked(&cmd, c) {
            Some(GraphicsCommand::Code2D(k)) => k,
            _ => return,
        };
        let b = job(&v);
        let p = a.end_at();
        let (e, got) = last_graphics(&b).expect("the code is printed");
        assert!(e.at.page == p.page);
        let x = p.base_x + justified(c, code.width * code.point_width);
        let mut dark = vec![];
        for (i, m) in code.points.iter().enumerate() {
            if *m > 0 {
                dark.push((i as u32 % code.width, i as u32 / code.width));
            }
        }
        let want = modules(&dark, x, p.y, code.point_width, code.point_height, p.base_x, p.width);
        assert!(sorted(got.clone()) == sorted(want.clone()), "{} modules of {} x {} at {},{}: {:?} instead of {:?}", code.width, code.point_width, code.point_height, x, p.y, got.get(0), want.get(0));
        let q = b.end_at();
        assert!(q.x == q.base_x, "printing continues at the left edge");
    }
    exec fn c23_job_barcode(nd) {
        let mut v = before(nd);
        v.extend([0x1d, b'w', nd.range(1, 8) as u8, 0x1d, b'h', nd.u8()]);
        let hri = if nd.bool() { 0 } else { nd.range(0, 3) as u8 };
        v.extend([0x1d, b'H', hri]);
        let a = job(&v);
        let c = a.end.as_ref().unwrap();
        let (kind, n) = nd.pick(&[(0u8, 11u32), (2, 12), (3, 7), (4, 5), (5, 10), (6, 6), (1, 7), (4, 30), (5, 40)]);
        let mut cmd = vec![0x1d, b'k', kind];
        if kind == 6 {
            cmd.push(b'A');
        }
        for i in 0..n {
            cmd.push(if kind == 1 && i == 0 { b'0' } else { nd.range(48, 57) as u8 });
        }
        if kind == 6 {
            cmd.push(b'B');
        }
        cmd.push(0);
        v.extend(&cmd);
        let code = match asked(&cmd, c) {
            Some(GraphicsCommand::Barcode(k)) => k,
            _ => return,
        };
        let b = job(&v);
        let p = a.end_at();
        let q = b.end_at();
        let (_, got) = last_graphics(&b).expect("the barcode is printed");
        let (pw, ph) = (code.point_width as u32, code.point_height as u32);
        let x = p.base_x + justified(c, code.points.len() as u32 * pw);
        let mut dark = vec![];
        for (i, m) in code.points.iter().enumerate() {
            if *m > 0 {
                dark.push((i as u32, 0));
            }
        }
        // text above moves it down
        let y = got.first().map(|r| r[1]).unwrap_or(p.y);
        assert!(if hri & 1 == 1 { y >= p.y } else { y == p.y }, "the barcode starts at the position, or below its text");
        let want = modules(&dark, x, y, pw, ph, p.base_x, p.width);
        assert!(got == &want, "{} modules of {} x {} at {},{}: {:?} instead of {:?}", code.points.len(), pw, ph, x, y, got.get(0), want.get(0));
        assert!(q.x == q.base_x, "printing continues at the left edge");
        if hri == 0 {
            assert!(q.y == p.y + ph, "printing continues below the barcode");
        } else if !got.is_empty() {
            assert!(q.y >= y + ph, "printing continues below the barcode");
        }
        // its text, above and below
        let k = b.events.iter().rposition(|e| matches!(e.what, What::Graphics(_))).unwrap();
        let words = |evs: &[Ev]| -> String {
            evs.iter().filter_map(|e| match &e.what {
                What::Text { spans, .. } => Some(spans.iter().map(|s| s.text.clone()).collect::<String>()),
                _ => None,
            }).collect()
        };
        let old = words(&a.events);
        let above = words(&b.events[..k]);
        let below = words(&b.events[k..]);
        let t = &code.text.text;
        assert!(above == format!("{}{}", old, if hri & 1 == 1 { t } else { "" }), "text above: {:?}", above);
        assert!(below == if hri & 2 == 2 { t.as_str() } else { "" }, "text below: {:?}", below);
    }
    exec fn c23_job_image(nd) {
        let mut v = before(nd);
        let which = nd.range(0, 3);
        let mut cmd = vec![];
        match which {
            0 | 1 => {
                // column image, printed within the line
                let m = nd.pick(&[0u8, 1, 32, 33]);
                let w = match nd.range(0, 3) {
                    0 => nd.range(1, 700),
                    _ => nd.range(1, 60),
                };
                cmd.extend([0x1b, b'*', m, (w % 256) as u8, (w / 256) as u8]);
                let len = w as usize * if m >= 32 { 3 } else { 1 };
                cmd.extend(vec![0x5a; len]);
            }
            2 => {
                let (w, h) = (nd.range(1, 90), nd.range(1, 9));
                cmd.extend([0x1d, b'v', b'0', nd.range(0, 3) as u8, w as u8, 0, h as u8, 0]);
                cmd.extend(vec![0x5a; (w * h) as usize]);
            }
            _ => {
                let (w, h) = (nd.range(1, 700), nd.range(1, 9));
                let mut d = vec![48, 1 + nd.range(0, 1) as u8, 1 + nd.range(0, 1) as u8, 49, (w % 256) as u8, (w / 256) as u8, h as u8, 0];
                d.extend(vec![0x5a; ((w + 7) / 8 * h) as usize]);
                v.extend(envelope_graphics(112, &d));
                cmd = envelope_graphics(50, &[]);
            }
        }
        let a = job(&v);
        let c = a.end.as_ref().unwrap();
        let image = match asked(&cmd, c) {
            Some(GraphicsCommand::Image(i)) => i,
            _ => panic!("a well formed image"),
        };
        v.extend(&cmd);
        let b = job(&v);
        let (p, q) = (a.end_at(), b.end_at());
        let placed = b.events.iter().rev().find_map(|e| match &e.what {
            What::Image(i) => Some(i),
            _ => None,
        }).expect("the image is printed");
        assert!((placed.w, placed.h) == (image.w, image.h));
        match image.flow {
            ImageFlow::Inline => {
                let avail = (p.base_x + p.width).saturating_sub(p.x);
                let (x, y) = if image.w > avail { (p.base_x, p.y + c.text.line_spacing as u32) } else { (p.x, p.y) };
                assert!((placed.x, placed.y) == (x, y), "inline image of width {} at {},{} instead of {},{} (room for {})", image.w, placed.x, placed.y, x, y, avail);
                assert!((q.x, q.y) == (x + image.w, y), "an inline image advances by its width");
            }
            ImageFlow::Block if !p.page => {
                let x = justified(c, image.w);
                assert!((placed.x, placed.y) == (x, p.y), "block image of width {} at {},{} instead of {},{}", image.w, placed.x, placed.y, x, p.y);
                assert!((q.x, q.y) == (0, p.y + image.h), "printing continues at the left edge below the image: {},{}", q.x, q.y);
            }
            _ => {
                assert!((placed.x, placed.y) == (p.x, p.y), "the image is placed at the position");
            }
        }
    }
    exec fn c23_job_flow(nd) {
        // several blocks one below the other, in standard mode
        let mut v = vec![];
        let n = nd.range(1, 6);
        let mut heights = vec![];
        for _ in 0..n {
            if nd.bool() {
                v.extend([0x1b, b'a', nd.range(0, 2) as u8]);
            }
            if nd.bool() {
                let h = nd.range(1, 20);
                v.extend([0x1d, b'v', b'0', 0, 2, 0, h as u8, 0]);
                v.extend(vec![0xff; 2 * h as usize]);
                heights.push(h);
            } else {
                let h = nd.range(1, 255);
                v.extend([0x1d, b'h', h as u8, 0x1d, b'k', 4, b'1', b'2', 0]);
                heights.push(h);
            }
        }
        let j = job(&v);
        let start = j.events.iter().find(|e| matches!(e.what, What::Begin)).unwrap().at.y;
        let mut y = start;
        let mut k = 0;
        for e in &j.events {
            let top = match &e.what {
                What::Image(i) => i.y,
                What::Graphics(g) => g[0][1],
                _ => continue,
            };
            assert!(top == y, "block {} is at {} instead of {}", k, top, y);
            y += heights[k];
            k += 1;
        }
        assert!(k == heights.len());
        assert!(j.end_at().y == y);
    }
}
