//! C07: positions are measured in motion units and never leave the top or left edge.
use crate::nd::Nd;
use crate::snap::*;
use crate::util::*;
use thermal_parser::commands::*;
use thermal_parser::context::*;

/// The documented range of positions: everything below 2^30 dots, so that sums stay in range.
const MAX: u32 = 1 << 30;
fn in_range(nd: &mut Nd, c: &Context) {
    for a in [&c.graphics.render_area, &c.page_mode.render_area, &c.page_mode.page_area] {
        nd.assume(a.x < MAX && a.y < MAX && a.w < MAX && a.h < MAX);
    }
}

/// Context::set_x_absolute in the direction dependent coordinates of page mode.
fn page_x(p: &mut PageSnap, d: u32) {
    match p.direction {
        0 => p.render.x = p.page.x + d,
        1 => p.render.y = p.page.y + d,
        2 => p.render.x = (p.page.x + p.render.w).saturating_sub(d),
        _ => p.render.y = p.render.h.saturating_sub(d),
    }
}
fn page_y(p: &mut PageSnap, d: u32) {
    match p.direction {
        0 => p.render.y = p.page.y + d,
        1 => p.render.x = p.page.x + p.render.w.saturating_sub(d),
        2 => p.render.y = p.page.y + p.render.h.saturating_sub(d),
        _ => p.render.x = p.page.x + d,
    }
}

fn motion_units(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let x = nd.u8();
    let y = nd.u8();
    // the power-on resolution and the two a graphics command can select (c07_resolution)
    let dpi = nd.pick(&[203u32, 180, 360]);
    nd.assume(want.graphics.dpi as u32 == dpi);
    apply(set_motion_units::new(), &[x, y], c);
    let unit = |u: u32| -> u8 { if u < 1 { 1 } else if u > 255 { 255 } else { u as u8 } };
    if x != 0 && y != 0 {
        want.graphics.h_motion = unit(dpi / x as u32);
        want.graphics.v_motion = unit(dpi / y as u32);
    }
    let got = snap(c);
    assert!(got.graphics.h_motion >= 1 && got.graphics.v_motion >= 1, "a motion unit is at least one dot");
    assert!(got == want, "GS P x y sets the motion units to the resolution divided by x and y, and nothing else");
}
fn resolution(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let (x, y) = (nd.u8(), nd.u8());
    apply_data(thermal_parser::subcommands::gs_graphics::set_dot_density::new(), vec![x, y], c);
    match (x, y) {
        (50, 50) => want.graphics.dpi = 180,
        (51, 51) => want.graphics.dpi = 360,
        _ => {}
    }
    assert!(snap(c) == want, "a resolution is 180 or 360 dpi, and selecting it changes nothing else");
}
fn absolute_x(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    in_range(nd, c);
    let n = nd.u16();
    apply(set_horizontal_pos::new(), &n.to_le_bytes(), c);
    let d = nd.div(n, want.graphics.h_motion);
    if want.page.enabled {
        page_x(&mut want.page, d)
    } else {
        want.graphics.render_area.x = d
    }
    assert!(snap(c) == want, "ESC $ moves to the position in horizontal motion units and changes nothing else");
}
fn absolute_y(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    in_range(nd, c);
    let n = nd.u16();
    apply(set_vertical_pos::new(), &n.to_le_bytes(), c);
    if want.page.enabled {
        let d = nd.div(n, want.graphics.v_motion);
        page_y(&mut want.page, d)
    }
    assert!(snap(c) == want, "GS $ moves to the position in vertical motion units in page mode only");
}
fn relative_y(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    in_range(nd, c);
    let n = nd.i16();
    apply(offset_vertical_pos::new(), &n.to_le_bytes(), c);
    if want.page.enabled {
        let d = nd.div(n.unsigned_abs(), want.graphics.v_motion) as i64 * n.signum() as i64;
        let y = want.page.render.y as i64 + d;
        want.page.render.y = if y < 0 { 0 } else { y as u32 };
    }
    assert!(snap(c) == want, "GS \\ moves relative in vertical motion units in page mode only, never above zero");
}
fn context_relative_x(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    in_range(nd, c);
    let n = nd.i16();
    c.offset_x_relative(n);
    let d = nd.div(n.unsigned_abs(), want.graphics.h_motion) as i64 * n.signum() as i64;
    let r = if want.page.enabled { &mut want.page.render } else { &mut want.graphics.render_area };
    let x = r.x as i64 + d;
    r.x = if x < 0 { 0 } else { x as u32 };
    assert!(snap(c) == want, "a relative horizontal move is in motion units and never goes left of zero");
}
fn context_relative_y(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    in_range(nd, c);
    let n = nd.i16();
    c.offset_y_relative(n);
    let d = nd.div(n.unsigned_abs(), want.graphics.v_motion) as i64 * n.signum() as i64;
    let r = if want.page.enabled { &mut want.page.render } else { &mut want.graphics.render_area };
    let y = r.y as i64 + d;
    r.y = if y < 0 { 0 } else { y as u32 };
    assert!(snap(c) == want, "a relative vertical move is in motion units and never goes above zero");
}

crate::contracts! {
    states 8 fn c07_motion_units { motion_units }
    states 8 fn c07_resolution { resolution }
    states 8 fn c07_absolute_x { absolute_x }
    states 8 fn c07_absolute_y { absolute_y }
    states 8 fn c07_relative_y { relative_y }
    states 8 fn c07_context_relative_x { context_relative_x }
    states 8 fn c07_context_relative_y { context_relative_y }
}
