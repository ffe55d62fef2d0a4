//! C08: the device commands that move the paper, for every printer state.
use crate::nd::Nd;
use crate::seen::*;
use crate::snap::*;
use std::mem::ManuallyDrop;
use thermal_parser::command::DeviceCommand;
use thermal_parser::context::Context;

const MAX: u32 = 1 << 29;
fn moved(want: &mut Snap, dy: i64) {
    if want.page.enabled {
        want.page.render.y = (want.page.render.y as i64 + dy) as u32;
        want.page.render.x = want.page.page.x;
    } else {
        want.graphics.render_area.y = (want.graphics.render_area.y as i64 + dy) as u32;
        want.graphics.render_area.x = 0;
    }
}
fn one(c: Context, d: DeviceCommand) -> (ManuallyDrop<Context>, Seen) {
    let v = ManuallyDrop::new(Some(vec![d]));
    step(ManuallyDrop::new(c), |r| r.verif_devices(&v))
}
fn any(nd: &mut Nd) -> (Context, Snap) {
    let mut c = fresh();
    havoc_places(nd, &mut c, MAX);
    c.text.line_spacing = nd.u8();
    let s = snap(&c);
    (ManuallyDrop::into_inner(c), s)
}

crate::contracts! {
    full 10 fn c08_step_feed(nd) {
        let (c, mut want) = any(nd);
        let n = nd.range(0, 255);
        let (c, seen) = one(c, DeviceCommand::Feed(n as i16));
        moved(&mut want, n as i64);
        assert!(snap(&c) == want, "a feed of n moves down by n, to the left edge");
        assert!(seen == Seen { devices: 1, ..NOTHING }, "and prints nothing");
    }
    full 10 fn c08_step_lines(nd) {
        let (c, mut want) = any(nd);
        let n = nd.range(0, 510) as i16 - 255;
        let (c, seen) = one(c, DeviceCommand::FeedLine(n));
        let dy = n as i64 * want.text.line_spacing as i64;
        if n < 0 {
            let (y, top) = if want.page.enabled { (want.page.render.y, want.page.page.y) } else { (want.graphics.render_area.y, 0) };
            let to = (y as i64 + dy).max(top as i64).max(0);
            moved(&mut want, to - y as i64);
        } else {
            moved(&mut want, dy);
        }
        assert!(snap(&c) == want, "n lines move by n line spacings, back never beyond the top");
        assert!(seen == Seen { devices: 1, ..NOTHING }, "and print nothing");
    }
    full 10 fn c08_step_cut(nd) {
        let (c, mut want) = any(nd);
        let d = if nd.bool() { DeviceCommand::FullCut } else { DeviceCommand::PartialCut };
        let (c, seen) = one(c, d);
        let dy = 2 * want.text.line_spacing as i64;
        moved(&mut want, dy);
        assert!(snap(&c) == want, "a cut moves down by two lines");
        assert!(seen == Seen { devices: 1, ..NOTHING }, "and prints nothing");
    }
    full 10 fn c08_step_page_end(nd) {
        // FF in page mode: the page ends, then it is printed and the paper moves by its height
        let (c, mut want) = any(nd);
        nd.assume(c.page_mode.enabled);
        let v = ManuallyDrop::new(Some(vec![DeviceCommand::EndPageMode, DeviceCommand::PrintPageMode]));
        let (c, seen) = step(ManuallyDrop::new(c), |r| r.verif_devices(&v));
        let at = (false, want.graphics.render_area.x, want.graphics.render_area.y);
        want.page.enabled = false;
        want.graphics.render_area.y += want.page.page.h;
        want.graphics.render_area.x = 0;
        assert!(snap(&c) == want, "the paper moves by the height of the page");
        assert!(seen == Seen { devices: 2, page_ends: 1, pages: 1, page_at: at, ..NOTHING }, "the page ends and is printed once, where the paper is");
    }
    full 10 fn c08_step_job_end(nd) {
        let (c, want) = any(nd);
        let (c, seen) = one(c, DeviceCommand::EndPrint);
        assert!(snap(&c) == want, "an ended job moves nothing");
        assert!(seen == Seen { devices: 1, ends: 1, ..NOTHING }, "the job ends once");
    }
}
