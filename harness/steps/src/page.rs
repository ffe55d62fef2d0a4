//! C10 and C11: what the renderer does when an area or a direction is set, for every state.
use crate::nd::Nd;
use crate::seen::*;
use crate::snap::*;
use std::mem::ManuallyDrop;
use thermal_parser::command::DeviceCommand;
use thermal_parser::context::Context;

const MAX: u32 = 1 << 29;
fn any(nd: &mut Nd) -> (Context, Snap) {
    let mut c = fresh();
    havoc_places(nd, &mut c, MAX);
    let s = snap(&c);
    (ManuallyDrop::into_inner(c), s)
}
fn one(c: Context, d: DeviceCommand) -> (ManuallyDrop<Context>, Seen) {
    let v = ManuallyDrop::new(Some(vec![d]));
    step(ManuallyDrop::new(c), |r| r.verif_devices(&v))
}
/// the page and its print area
fn placed(p: &mut PageSnap) {
    if p.direction % 2 != p.previous % 2 {
        std::mem::swap(&mut p.page.w, &mut p.page.h);
    }
    let l = &p.logical;
    let (mut x, mut y, aw, ah) = if p.direction % 2 == 0 { (l.x, l.y, l.w, l.h) } else { (l.y, l.x, l.h, l.w) };
    if p.direction != 0 {
        x = if x + aw > p.page.w { 0 } else { p.page.w - (x + aw) };
    }
    if p.direction == 3 {
        y = if y + ah > p.page.h { 0 } else { p.page.h - (y + ah) };
    }
    p.render = Area { x, y, w: aw, h: ah };
    p.page = Area { x, y, w: if x + aw > p.page.w { x + aw } else { p.page.w }, h: if y + ah > p.page.h { y + ah } else { p.page.h } };
}

#[cfg(feature = "c10")]
crate::contracts! {
    full 10 fn c10_step_area(nd) {
        let (c, mut want) = any(nd);
        let (c, seen) = one(c, DeviceCommand::ChangePageArea);
        want.page.previous = want.page.direction;
        placed(&mut want.page);
        assert!(snap(&c) == want, "the area is placed in the current direction");
        assert!(seen == Seen { devices: 1, areas: 1, area: (0, want.page.page.w, want.page.page.h), ..NOTHING }, "the output is told the page size");
    }
    full 10 fn c10_step_direction(nd) {
        let (c, mut want) = any(nd);
        let (c, seen) = one(c, DeviceCommand::ChangePageModeDirection);
        placed(&mut want.page);
        assert!(snap(&c) == want, "the area is placed in the new direction");
        assert!(seen.areas == 1 && (seen.area.1, seen.area.2) == (want.page.page.w, want.page.page.h), "the output is told the page size");
    }
}
#[cfg(feature = "c11")]
crate::contracts! {
    full 10 fn c11_step_area(nd) {
        let (c, _) = any(nd);
        let (_, seen) = one(c, DeviceCommand::ChangePageArea);
        assert!(seen.areas == 1 && seen.area.0 == 0, "setting an area turns nothing");
    }
    full 10 fn c11_step_direction(nd) {
        let (c, want) = any(nd);
        let (c, seen) = one(c, DeviceCommand::ChangePageModeDirection);
        let turn = (want.page.direction as u32 + 4 - want.page.previous as u32) % 4;
        assert!(seen.areas == 1 && seen.area.0 as u32 == turn, "the page is turned by the quarter turns between the directions");
        assert!(dir_no(&c.page_mode.direction) == want.page.direction && dir_no(&c.page_mode.previous_direction) == want.page.previous, "the directions stay");
    }
}
