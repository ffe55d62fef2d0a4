//! C31: rendering never panics.
use crate::known;
use crate::nd::Nd;
use crate::rec::*;
use crate::stream::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn small(j: &Job) -> bool {
    j.events.iter().all(|e| e.at.paper_y < 3000 && e.at.y < 3000 && match &e.what {
        What::Area { w, h, .. } => *w < 1000 && *h < 1000,
        What::Image(i) => i.w < 3000 && i.h < 3000,
        _ => true,
    })
}
/// layout only, and with pictures when they are of reasonable size
fn check(bytes: &[u8]) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let j = job(bytes);
        if small(&j) {
            paper(bytes);
            html(bytes);
        }
    }));
    if r.is_err() && !known::stream_hits(bytes) {
        panic!("rendering panics on {:02x?}", bytes);
    }
}

crate::contracts! {
    exec fn c31_job_commands(nd) {
        let mut v = vec![];
        for _ in 0..nd.range(1, 8) {
            v.extend(any_command(nd));
        }
        let k = nd.range(0, v.len() as u32) as usize;
        if nd.bool() {
            v.truncate(k);
        }
        check(&v);
    }
    exec fn c31_job_page(nd) {
        // page mode with areas of reasonable size
        let mut v = page_setup(nd);
        for _ in 0..nd.range(1, 8) {
            match nd.range(0, 5) {
                0 => v.extend(area_command(nd, 300, 300)),
                1 => v.extend([0x1b, b'T', nd.u8()]),
                2 => v.extend([0x0c]),
                3 => v.extend([0x1b, 0x0c]),
                4 => {
                    let n = nd.range(0, 400);
                    v.extend([nd.pick(&[0x1bu8, 0x1d]), b'$', (n % 256) as u8, (n / 256) as u8]);
                }
                _ => v.extend(any_command(nd)),
            }
            if nd.range(0, 3) == 0 {
                v.extend(text(nd, 9));
            }
        }
        check(&v);
    }
    exec fn c31_job_bytes(nd) {
        let n = nd.range(0, 60) as usize;
        let v = nd.bytes(n);
        check(&v);
    }
    exec fn c31_job_text(nd) {
        let mut v = vec![0x1b, b't', nd.u8(), 0x1b, b'R', nd.u8(), 0x1d, b'!', nd.u8(), 0x1b, b'M', nd.u8(), 0x1b, b'a', nd.u8(), 0x1b, b'{', nd.u8()];
        let n = nd.range(0, 60) as usize;
        v.extend(nd.bytes(n));
        check(&v);
    }
}
