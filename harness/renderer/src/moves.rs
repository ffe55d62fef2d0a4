//! C08: feeds, line feeds and cuts, executed by the renderer.
use crate::nd::Nd;
use crate::rec::*;
use crate::stream::text;

/// what was printed as text: places and offsets
fn printed(j: &Job) -> Vec<(Vec<(String, u32, u32, u32, u32)>, u32)> {
    j.events.iter().filter_map(|e| match &e.what {
        What::Text { spans, offset, .. } => Some((boxes(spans), *offset)),
        _ => None,
    }).collect()
}

crate::contracts! {
    exec fn c08_job_move(nd) {
        let mut v = any_setup(nd);
        let pending = nd.bool();
        if pending {
            let t = text(nd, 5);
            v.extend(t);
        }
        let a = job(&v);
        let (n, m) = (nd.u8(), nd.pick(&[0u8, 48, 1, 49, 65, 97, 103, 66, 98, 104]));
        let which = nd.range(0, 4);
        match which {
            0 => v.extend([0x1b, b'J', n]),
            1 => v.push(0x0a),
            2 => v.extend([0x1b, b'd', n]),
            3 => v.extend([0x1b, b'e', n]),
            _ => {
                v.extend([0x1d, b'V', m]);
                if m >= 65 {
                    v.push(n);
                }
            }
        }
        let b = job(&v);
        let (p, q) = (a.end_at(), b.end_at());
        let c = a.end.as_ref().unwrap();
        let spacing = c.text.line_spacing as u32;
        let tall = if pending { c.text.character_height as u32 * c.text.height_mult as u32 } else { 0 };
        assert!(printed(&a) == printed(&b), "the pending text is printed before the move, where it was");
        assert!(q.x == p.base_x, "the move returns to the left edge: {} instead of {}", q.x, p.base_x);
        let want = match which {
            0 => p.y + n as u32,
            1 => p.y + spacing.max(tall),
            2 => p.y + n as u32 * spacing,
            3 => {
                nd.assume(p.y >= p.base_y);
                p.y.saturating_sub(n as u32 * spacing).max(p.base_y)
            }
            _ => p.y + 2 * spacing + if m >= 65 { n as u32 } else { 0 },
        };
        assert!(q.y == want, "move {} of {} from {} with spacing {}: {} instead of {}", which, n, p.y, spacing, q.y, want);
    }
    exec fn c08_job_history(nd) {
        // line feeds and moves between texts of several sizes, in standard mode
        let steps = nd.range(1, 12);
        let mut v = vec![];
        let (mut spacing, mut mult, mut font) = (24u32, 1u32, 24u32);
        let mut y: i64 = 0; // relative to the start
        let start = match job(&[]).events.iter().find(|e| matches!(e.what, What::Begin)) {
            Some(e) => e.at.y as i64,
            None => panic!("the job begins"),
        };
        let mut tall = 0u32; // of the pending line
        let mut lines: Vec<(i64, u32)> = vec![];
        for _ in 0..steps {
            match nd.range(0, 8) {
                0 | 1 => {
                    let t = text(nd, 2);
                    v.extend(t);
                    tall = tall.max(font * mult);
                }
                2 => {
                    mult = nd.range(1, 4);
                    v.extend([0x1d, b'!', mult as u8 - 1]);
                }
                3 => {
                    font = nd.pick(&[24u32, 17]);
                    v.extend([0x1b, b'M', if font == 24 { 0 } else { 1 }]);
                }
                4 => {
                    spacing = nd.u8() as u32;
                    v.extend([0x1b, b'3', spacing as u8]);
                    // a change of the spacing prints the pending text
                    if tall > 0 {
                        lines.push((y, tall));
                        // the position stays behind the text: start a new line
                        v.extend([0x1b, b'd', 1]);
                        y += spacing as i64;
                        tall = 0;
                    }
                }
                k => {
                    if tall > 0 {
                        lines.push((y, tall));
                    }
                    let n = nd.u8();
                    match k {
                        5 => {
                            v.push(0x0a);
                            y += spacing.max(tall) as i64;
                        }
                        6 => {
                            v.extend([0x1b, b'J', n]);
                            y += n as i64;
                        }
                        7 => {
                            v.extend([0x1b, b'd', n]);
                            y += n as i64 * spacing as i64;
                        }
                        _ => {
                            v.extend([0x1b, b'e', n]);
                            y = (start + y - n as i64 * spacing as i64).max(0) - start;
                        }
                    }
                    tall = 0;
                }
            }
        }
        if tall > 0 {
            lines.push((y, tall));
        }
        let j = job(&v);
        let got: Vec<(i64, u32)> = j.events.iter().filter_map(|e| match &e.what {
            What::Text { spans, height, .. } => Some((boxes(spans)[0].2 as i64 - start, *height)),
            _ => None,
        }).collect();
        assert!(got == lines, "lines (position, height) {:?} instead of {:?}", got, lines);
        assert!(j.end_at().y as i64 - start == y, "the paper moved by {} instead of {}", j.end_at().y as i64 - start, y);
    }
    exec fn c08_job_formfeed(nd) {
        let mut v = any_setup(nd);
        let pending = nd.bool();
        if pending {
            let t = text(nd, 5);
            v.extend(t);
        }
        let a = job(&v);
        v.push(0x0c);
        let b = job(&v);
        let p = a.end_at();
        assert!(printed(&a) == printed(&b), "the pending text is printed before the form feed");
        let tail: Vec<&What> = b.events.iter().rev().map(|e| &e.what).filter(|w| !matches!(w, What::Device(_))).collect();
        if p.page {
            let c = a.end.as_ref().unwrap();
            assert!(matches!(tail[0], What::End) && matches!(tail[1], What::Page) && matches!(tail[2], What::PageEnd), "the page ends and is printed");
            assert!(b.outputs == 1);
            let q = b.end_at();
            assert!(!q.page, "page mode has ended");
            assert!(q.paper_y == p.paper_y + c.page_mode.page_area.h && q.paper_x == 0, "printing continues below the page");
            let place = b.events.iter().rev().find(|e| matches!(e.what, What::Page)).unwrap();
            assert!(place.at.paper_y == p.paper_y, "the page is printed at the position of the paper");
        } else {
            assert!(b.outputs == 2 && matches!(tail[0], What::End) && matches!(tail[1], What::End), "the job ends at the form feed");
            assert!(b.end_at().y == p.y, "an ended job does not move");
        }
    }
}
