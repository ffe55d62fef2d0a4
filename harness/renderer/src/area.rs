//! C10: page mode areas, as the output is told about them.
use crate::nd::Nd;
use crate::rec::*;

crate::contracts! {
    exec fn c10_job_areas(nd) {
        let mut v = vec![];
        let (mut ux, mut uy) = (1u32, 1u32);
        if nd.bool() {
            let (a, b) = (nd.range(1, 255) as u8, nd.range(1, 255) as u8);
            v.extend([0x1d, b'P', a, b]);
            // the divisors are what the printer keeps of it (C07)
            let c = job(&v).end.unwrap();
            ux = c.graphics.h_motion_unit as u32;
            uy = c.graphics.v_motion_unit as u32;
        }
        v.extend([0x1b, b'L']);
        let steps = nd.range(1, 8);
        let mut page = (0u32, 0u32);
        let mut dir = 0u32;
        let mut logical = [0u32; 4];
        let mut want = vec![];
        for _ in 0..steps {
            let old = dir;
            if nd.bool() {
                let d = nd.range(0, 4) as u8;
                let d = if d == 4 { nd.u8() } else if nd.bool() { d } else { d + 48 };
                v.extend([0x1b, b'T', d]);
                dir = match d {
                    1 | 49 => 1,
                    2 | 50 => 2,
                    3 | 51 => 3,
                    _ => 0,
                };
            } else {
                let a = if nd.range(0, 3) == 0 {
                    [nd.u16() as u32, nd.u16() as u32, nd.u16() as u32, nd.u16() as u32]
                } else {
                    [nd.range(0, 90), nd.range(0, 90), nd.range(0, 400), nd.range(0, 400)]
                };
                v.extend([0x1b, b'W']);
                for n in a {
                    v.extend([(n % 256) as u8, (n / 256) as u8]);
                }
                logical = [a[0] / ux, a[1] / uy, a[2] / ux, a[3] / uy];
            }
            if old % 2 != dir % 2 {
                page = (page.1, page.0);
            }
            let [lx, ly, lw, lh] = logical;
            // the area with its own axes, then mirrored from the far edges of the page
            let (mut x, mut y, w, h) = if dir % 2 == 0 { (lx, ly, lw, lh) } else { (ly, lx, lh, lw) };
            if dir != 0 {
                x = page.0.saturating_sub(x + w);
            }
            if dir == 3 {
                y = page.1.saturating_sub(y + h);
            }
            page = (page.0.max(x + w), page.1.max(y + h));
            want.push(([x, y, w, h], page, dir, logical));
        }
        let j = job(&v);
        let got: Vec<_> = j.events.iter().filter_map(|e| match &e.what {
            What::Area { w, h, logical, render, page, direction, .. } => Some((*render, (*w, *h), *direction as u32, *logical, *page)),
            _ => None,
        }).collect();
        assert!(got.len() == want.len(), "every area or direction command places the area");
        for (g, w) in got.iter().zip(&want) {
            assert!(g.2 == w.2, "direction {} instead of {}", g.2, w.2);
            assert!(g.3 == w.3, "logical area {:?} instead of {:?}", g.3, w.3);
            assert!(g.0 == w.0, "print area {:?} instead of {:?}", g.0, w.0);
            assert!(g.1 == w.1 && (g.4[2], g.4[3]) == w.1, "page {:?} instead of {:?}", g.1, w.1);
            assert!((g.4[0], g.4[1]) == (g.0[0], g.0[1]), "the left edge and top are those of the print area");
        }
    }
}
