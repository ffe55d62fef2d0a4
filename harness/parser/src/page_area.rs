//! C10: the step contracts of the page mode areas.
use crate::nd::Nd;
use crate::snap::*;
use crate::util::*;
use thermal_parser::commands::*;
use thermal_parser::context::*;

const MAX: u32 = 1 << 30;

fn quarter(r: &Rotation) -> u32 {
    match r {
        Rotation::R0 => 0,
        Rotation::R90 => 1,
        Rotation::R180 => 2,
        Rotation::R270 => 3,
    }
}
fn place(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    for a in [&c.page_mode.logical_area, &c.page_mode.page_area] {
        nd.assume(a.x < MAX && a.y < MAX && a.w < MAX && a.h < MAX);
    }
    let (turn, w, h) = c.page_mode.apply_logical_area();
    let got = snap(c);
    let p = &mut want.page;
    // the quarter turns between the two directions
    assert!(quarter(&turn) == (p.direction as u32 + 4 - p.previous as u32) % 4, "the page is turned by the quarter turns between the directions");
    if p.direction % 2 != p.previous % 2 {
        std::mem::swap(&mut p.page.w, &mut p.page.h);
    }
    // the print area with its own axes, mirrored from the far edges of the page
    let l = &p.logical;
    let (mut x, mut y, aw, ah) = if p.direction % 2 == 0 { (l.x, l.y, l.w, l.h) } else { (l.y, l.x, l.h, l.w) };
    if p.direction != 0 {
        x = if x + aw > p.page.w { 0 } else { p.page.w - (x + aw) };
    }
    if p.direction == 3 {
        y = if y + ah > p.page.h { 0 } else { p.page.h - (y + ah) };
    }
    p.render = Area { x, y, w: aw, h: ah };
    p.page = Area { x, y, w: if x + aw > p.page.w { x + aw } else { p.page.w }, h: if y + ah > p.page.h { y + ah } else { p.page.h } };
    assert!((w, h) == (p.page.w, p.page.h), "the page grows just enough to hold the print area");
    assert!(got == want, "the print area is at its place and nothing else changes");
}
fn area_command(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let mut d = [0u8; 8];
    let mut i = 0;
    let mut n = [0u16; 4];
    while i < 4 {
        n[i] = nd.u16();
        d[2 * i] = (n[i] & 255) as u8;
        d[2 * i + 1] = (n[i] >> 8) as u8;
        i += 1;
    }
    let (h, v) = (want.graphics.h_motion, want.graphics.v_motion);
    apply(page_mode_print_area::new(), &d, c);
    if want.page.enabled {
        want.page.logical = Area { x: nd.div(n[0], h), y: nd.div(n[1], v), w: nd.div(n[2], h), h: nd.div(n[3], v) };
    }
    assert!(snap(c) == want, "ESC W sets the area, in motion units, in page mode only, and nothing else");
}

crate::contracts! {
    states 8 fn c10_place { place }
    states 10 fn c10_area_command { area_command }
}
