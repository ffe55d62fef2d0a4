//! C08: the step contracts of the vertical moves.
use crate::nd::Nd;
use crate::snap::*;
use crate::util::*;
use std::mem::ManuallyDrop;
use thermal_parser::command::DeviceCommand;
use thermal_parser::commands::*;
use thermal_parser::context::*;
use thermal_parser::text::TextSpan;

const MAX: u32 = 1 << 30;
fn in_range(nd: &mut Nd, c: &Context) {
    for a in [&c.graphics.render_area, &c.page_mode.render_area, &c.page_mode.page_area] {
        nd.assume(a.x < MAX && a.y < MAX && a.w < MAX && a.h < MAX);
    }
}
/// the state after a move down by dy (or up), at the left edge
fn moved(want: &mut Snap, dy: i64) {
    if want.page.enabled {
        want.page.render.y = (want.page.render.y as i64 + dy) as u32;
        want.page.render.x = want.page.page.x;
    } else {
        want.graphics.render_area.y = (want.graphics.render_area.y as i64 + dy) as u32;
        want.graphics.render_area.x = 0;
    }
}

fn feed(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    in_range(nd, c);
    let n = nd.u8() as u32;
    c.feed(n);
    moved(&mut want, n as i64);
    assert!(snap(c) == want, "a feed moves down by n, to the left edge, and changes nothing else");
}
fn newline(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    in_range(nd, c);
    let n = nd.u8() as u32;
    c.newline(n);
    let dy = n as i64 * want.text.line_spacing as i64;
    moved(&mut want, dy);
    assert!(snap(c) == want, "n lines move down by n line spacings, to the left edge");
}
fn reverse(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    in_range(nd, c);
    let n = nd.u8() as u32;
    c.reverse_newline(n);
    let up = n as i64 * want.text.line_spacing as i64;
    let (y, top) = if want.page.enabled { (want.page.render.y, want.page.page.y) } else { (want.graphics.render_area.y, 0) };
    let to = (y as i64 - up).max(top as i64).max(0);
    moved(&mut want, to - y as i64);
    assert!(snap(c) == want, "n lines back move up by n line spacings, never beyond the top, to the left edge");
}
fn for_spans(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    in_range(nd, c);
    let n = nd.range(0, 2);
    let mut spans = ManuallyDrop::new(vec![]);
    let mut tall = want.text.line_spacing as u32;
    let mut i = 0;
    while i < n {
        let mut s = TextSpan::new(String::new(), c);
        s.character_height = nd.u16() as u32;
        tall = tall.max(s.character_height);
        spans.push(s);
        i += 1;
    }
    c.newline_for_spans(&spans);
    moved(&mut want, tall as i64);
    assert!(snap(c) == want, "a line of text moves down by the line spacing or its tallest text");
}

/// the device commands a command stands for, as numbers
fn code(d: &DeviceCommand) -> (u8, i32) {
    match d {
        DeviceCommand::Feed(n) => (1, *n as i32),
        DeviceCommand::FeedLine(n) => (2, *n as i32),
        DeviceCommand::FullCut => (3, 0),
        DeviceCommand::PartialCut => (4, 0),
        DeviceCommand::EndPrint => (5, 0),
        DeviceCommand::EndPageMode => (6, 0),
        DeviceCommand::PrintPageMode => (7, 0),
        DeviceCommand::BeginPageMode => (8, 0),
        _ => (99, 0),
    }
}
fn codes(d: &Option<Vec<DeviceCommand>>) -> (usize, (u8, i32), (u8, i32)) {
    match d {
        None => (0, (0, 0), (0, 0)),
        Some(v) => (v.len(), if v.len() > 0 { code(&v[0]) } else { (0, 0) }, if v.len() > 1 { code(&v[1]) } else { (0, 0) }),
    }
}

crate::contracts! {
    states 8 fn c08_feed { feed }
    states 8 fn c08_newline { newline }
    states 8 fn c08_reverse { reverse }
    exec fn c08_spans(nd) {
        let mut c = any_state(nd);
        let want = snap(&c);
        for_spans(nd, &mut c, want);
    }
    full 4 fn c08_commands(nd) {
        let mut c = fresh();
        c.page_mode.enabled = nd.bool();
        let n = nd.u8();
        let before = snap(&c);
        let k = fed(print_and_feed::new(), &[n]);
        assert!(codes(&devices(&k, &c)) == (1, (1, n as i32), (0, 0)), "ESC J feeds by n");
        let k = fed(print_and_feed_lines::new(), &[n]);
        assert!(codes(&devices(&k, &c)) == (1, (2, n as i32), (0, 0)), "ESC d feeds n lines");
        let k = fed(print_and_reverse_feed_lines::new(), &[n]);
        let got = codes(&devices(&k, &c));
        assert!(got == (1, (2, -(n as i32)), (0, 0)), "ESC e feeds n lines back");
        let k = fed(formfeed::new(), &[]);
        let want = if c.page_mode.enabled { (2, (6, 0), (7, 0)) } else { (1, (5, 0), (0, 0)) };
        assert!(codes(&devices(&k, &c)) == want, "FF ends page mode and prints the page, or ends the job");
        assert!(snap(&c) == before, "asking for device commands changes nothing");
    }
    full 4 fn c08_cut(nd) {
        let c = fresh();
        let (m, n) = (nd.u8(), nd.u8());
        let k = fed(feed_and_cut::new(), &[m, n]);
        let want = match m {
            0 | 48 => (1, (3, 0), (0, 0)),
            1 | 49 => (1, (4, 0), (0, 0)),
            65 | 97 | 103 => (2, (3, 0), (1, n as i32)),
            66 | 98 | 104 => (2, (4, 0), (1, n as i32)),
            _ => (0, (0, 0), (0, 0)),
        };
        assert!(codes(&devices(&k, &c)) == want, "GS V cuts, and feeds only in its feeding forms");
    }
}
