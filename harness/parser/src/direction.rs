//! C11: direction changes compose.
use crate::nd::Nd;
use crate::snap::*;
use crate::util::*;
use thermal_parser::commands::*;
use thermal_parser::context::*;

fn quarter(r: &Rotation) -> u32 {
    match r {
        Rotation::R0 => 0,
        Rotation::R90 => 1,
        Rotation::R180 => 2,
        Rotation::R270 => 3,
    }
}
fn direction_command(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    apply(page_mode_print_direction::new(), &[n], c);
    if want.page.enabled {
        want.page.previous = want.page.direction;
        want.page.direction = match n {
            1 | 49 => 1,
            2 | 50 => 2,
            3 | 51 => 3,
            _ => 0,
        };
    }
    assert!(snap(c) == want, "ESC T sets the direction in page mode only, remembers the one before, and nothing else");
}

crate::contracts! {
    states 8 fn c11_direction_command { direction_command }
    full 4 fn c11_turns(nd) {
        let c = fresh();
        let p = &c.page_mode;
        let (a, b, d) = (nd_dir(nd), nd_dir(nd), nd_dir(nd));
        let t = |x: &PrintDirection, y: &PrintDirection| quarter(&p.calculate_directional_rotation(x, y));
        assert!(t(&a, &b) == (dir_no(&b) as u32 + 4 - dir_no(&a) as u32) % 4, "the turn is the quarter turns between the directions");
        assert!(t(&a, &a) == 0, "no change turns nothing");
        assert!((t(&a, &b) + t(&b, &d)) % 4 == t(&a, &d), "two changes are the direct change");
        assert!((t(&a, &b) + t(&b, &a)) % 4 == 0, "a change back undoes it");
    }
    full 4 fn c11_area_turns_nothing(nd) {
        // what the renderer does for an area: the direction has not changed
        let mut c = fresh();
        havoc_page(nd, &mut c);
        for a in [&c.page_mode.logical_area, &c.page_mode.page_area] {
            nd.assume(a.x < 1 << 30 && a.y < 1 << 30 && a.w < 1 << 30 && a.h < 1 << 30);
        }
        c.page_mode.previous_direction = c.page_mode.direction.clone();
        let (w, h) = (c.page_mode.page_area.w, c.page_mode.page_area.h);
        let (turn, w2, h2) = c.page_mode.apply_logical_area();
        assert!(quarter(&turn) == 0, "an area turns nothing");
        assert!(w2 >= w && h2 >= h, "and exchanges nothing");
    }
}
