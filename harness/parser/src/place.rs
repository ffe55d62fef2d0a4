//! C23: the offset of a justified symbol or image.
use crate::nd::Nd;
use crate::snap::*;
use thermal_parser::context::*;

fn justified(nd: &mut Nd, c: &mut Context, want: Snap) {
    let n = nd.u32();
    let x = c.calculate_justification(n);
    let w = if want.page.enabled { want.page.render.w } else { want.graphics.render_area.w };
    if n > w {
        assert!(x == 0, "what does not fit starts at the left edge");
    } else {
        match want.text.justify {
            0 => assert!(x == 0, "left: no offset"),
            1 => assert!(x as u64 * 2 <= (w - n) as u64 && (w - n) as u64 - x as u64 * 2 <= 1, "centred: half of what remains"),
            _ => assert!(x == w - n, "right: all of what remains"),
        }
        assert!(x as u64 + n as u64 <= w as u64, "it stays inside of the print area");
    }
    assert!(snap(c) == want, "asking changes nothing");
}
fn room(nd: &mut Nd, c: &mut Context, want: Snap) {
    nd.assume(c.page_mode.enabled || true);
    let got = c.get_available_width();
    let (x, w) = if want.page.enabled {
        (want.page.render.x.saturating_sub(want.page.page.x), want.page.render.w)
    } else {
        (want.graphics.render_area.x, want.graphics.render_area.w)
    };
    assert!(got == if x < w { w - x } else { 0 }, "what is available is what remains of the line");
    assert!(snap(c) == want, "asking changes nothing");
}

crate::contracts! {
    states 8 fn c23_justified { justified }
    states 8 fn c23_available { room }
}
