//! C05: every text style command sets exactly the attribute it documents.
use crate::nd::Nd;
use crate::snap::*;
use crate::util::*;
use thermal_parser::command::DeviceCommand;
use thermal_parser::commands::*;
use thermal_parser::context::*;

/// The size of a font, from the documentation of the character grid.
fn cell(font: u8) -> (u8, u8) {
    if font == 0 {
        (12, 24)
    } else {
        (9, 17)
    }
}
fn font_of(n: u8) -> u8 {
    match n {
        1 | 49 => 1,
        2 | 50 => 2,
        3 | 51 => 3,
        4 | 52 => 4,
        97 => 97,
        98 => 98,
        _ => 0,
    }
}
/// colour number -> colour of the current palette
fn colour(c: &Snap, n: u8) -> u32 {
    match n {
        0 => c.graphics.colors.0,
        2 | 50 => c.graphics.colors.2,
        3 | 51 => c.graphics.colors.3,
        _ => c.graphics.colors.1,
    }
}

fn underline(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    apply(set_underline::new(), &[n], c);
    want.text.underline = match n { 1 | 49 => 1, 2 | 50 => 2, _ => 0 };
    assert!(snap(c) == want, "ESC - n sets the underline weight and nothing else");
}
fn flags(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let which = nd.range(0, 3);
    let n = nd.u8();
    let on = n % 2 == 1;
    match which {
        0 => { apply(set_emphasis::new(), &[n], c); want.text.bold = on; }
        1 => { apply(set_italic::new(), &[n], c); want.text.italic = on; }
        2 => { apply(set_upside_down::new(), &[n], c); want.text.upside_down = on; }
        _ => { apply(set_smoothing::new(), &[n], c); want.text.smoothing = on; }
    }
    assert!(snap(c) == want, "a one-bit style command sets its own flag from the low bit and nothing else");
}
fn double_strike(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    apply(set_double_strike::new(), &[n], c);
    want.text.strikethrough = if n % 2 == 1 { 2 } else { 0 };
    assert!(snap(c) == want, "ESC G n sets the strike from the low bit and nothing else");
}
fn font(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    apply(set_font::new(), &[n], c);
    want.text.font = font_of(n);
    let (w, h) = cell(want.text.font);
    want.text.character_width = w;
    want.text.character_height = h;
    assert!(snap(c) == want, "ESC M n selects the font with its cell and nothing else");
}
fn print_mode(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    apply(set_print_mode::new(), &[n], c);
    want.text.font = n & 1;
    let (w, h) = cell(want.text.font);
    want.text.character_width = w;
    want.text.character_height = h;
    want.text.bold = n & 8 != 0;
    want.text.height_mult = if n & 16 != 0 { 2 } else { 1 };
    want.text.width_mult = if n & 32 != 0 { 2 } else { 1 };
    want.text.underline = if n & 128 != 0 { 1 } else { 0 };
    assert!(snap(c) == want, "ESC ! n sets the attributes of its bits and nothing else");
}
fn character_size(nd: &mut Nd, c: &mut Context, want: Snap) {
    let n = nd.u8();
    let cmd = fed(set_character_size::new(), &[n]);
    cmd.handler.apply_context(&cmd, c);
    assert!(snap(c) == want, "GS ! n changes no state but through the size it announces");
    let d = devices(&cmd, c);
    let (w, h) = ((n >> 4 & 7) + 1, (n & 7) + 1);
    let d = d.as_ref().expect("GS ! n announces a size");
    assert!(d.len() == 2, "GS ! n announces the width and the height");
    let mut got = (0u8, 0u8);
    let mut i = 0;
    while i < 2 {
        match &d[i] {
            DeviceCommand::SetTextWidth(x) => got.0 = *x,
            DeviceCommand::SetTextHeight(x) => got.1 = *x,
            _ => panic!("GS ! n announces a size only"),
        }
        i += 1;
    }
    assert!(got == (w, h), "GS ! n: width from the upper, height from the lower three bits, plus one");
}
fn justification(nd: &mut Nd, c: &mut Context, want: Snap) {
    let n = nd.u8();
    let cmd = fed(set_justification::new(), &[n]);
    cmd.handler.apply_context(&cmd, c);
    assert!(snap(c) == want, "ESC a n changes no state but through the justification it announces");
    let d = devices(&cmd, c);
    let d = d.as_ref().expect("ESC a n announces a justification");
    assert!(d.len() == 1);
    match &d[0] {
        DeviceCommand::Justify(j) => assert!(
            justify_no(j) == match n { 1 | 49 => 1, 2 | 50 => 2, _ => 0 },
            "ESC a n: 1 centres, 2 aligns right, everything else aligns left"
        ),
        _ => panic!("ESC a n announces a justification"),
    }
}
fn alternate_color(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    apply(set_alt_color::new(), &[n], c);
    want.text.color = if n == 1 || n == 49 { want.graphics.colors.2 } else { want.graphics.colors.1 };
    assert!(snap(c) == want, "ESC r n selects the first or the second colour and nothing else");
}
fn invert(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    apply(set_black_white_invert::new(), &[n], c);
    let g = want.graphics.colors;
    let on = n % 2 == 1;
    want.text.invert = on;
    want.text.color = if on { g.0 } else { g.1 };
    want.text.background_color = if on { g.1 } else { g.0 };
    assert!(snap(c) == want, "GS B n exchanges paper and first colour and nothing else");
}
fn effects(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    // the announced parameters (that exactly those are taken is a framing property)
    let f = nd.u8();
    let m = nd.u8();
    let a = nd.u8();
    let data = if f == 50 { vec![3, 0, f, m, a] } else { vec![2, 0, f, m] };
    apply_data(set_character_effects::new(), data, c);
    let col = colour(&want, m);
    match f {
        48 => want.text.color = col,
        49 => want.text.background_color = col,
        50 => {
            want.text.shadow_color = col;
            want.text.shadow = a != 0 && a != 48;
        }
        _ => {}
    }
    assert!(snap(c) == want, "GS ( N sets the colour of its function and nothing else");
}
fn line_spacing(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    if nd.bool() {
        apply(set_line_spacing::new(), &[n], c);
        want.text.line_spacing = n;
    } else {
        apply(default_line_spacing::new(), &[], c);
        want.text.line_spacing = 24;
    }
    assert!(snap(c) == want, "ESC 3 n and ESC 2 set the line spacing and nothing else");
}
fn tables(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    if nd.bool() {
        apply(set_code_table::new(), &[n], c);
        want.text.code_table = n;
    } else {
        apply(set_international_charset::new(), &[n], c);
        want.text.character_set = n;
    }
    let got = snap(c);
    want.text.decoder = got.text.decoder; // what text decodes to has its own property
    assert!(got == want, "ESC t n and ESC R n select a table or a set and nothing else");
}

crate::contracts! {
    states 8 fn c05_underline { underline }
    states 8 fn c05_flags { flags }
    states 8 fn c05_double_strike { double_strike }
    states 8 fn c05_font { font }
    states 8 fn c05_print_mode { print_mode }
    states 8 fn c05_line_spacing { line_spacing }
    states 8 fn c05_alternate_color { alternate_color }
    states 8 fn c05_invert { invert }
    states 8 fn c05_effects { effects }
    states 8 fn c05_tables { tables }
    states 8 fn c05_announced { character_size, justification }
}
