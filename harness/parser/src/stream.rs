//! Generators of command streams (executed contracts only) and an independent description of
//! the command set: opcode and parameter framing of every documented command.
#![allow(dead_code)]
use crate::nd::Nd;
use crate::util::*;
use thermal_parser::command::Command;
use thermal_parser::commands::*;

/// Opcode and number of parameter bytes of every command with a fixed number of parameters.
pub const FIXED: &[(&[u8], usize, fn() -> Command)] = &[
    (&[0x18, b'@'], 0, cancel::new),            // CAN @: cancel
    (&[0x0d], 0, carriage_return::new),                  // CR
    (&[0x0a], 0, linefeed::new),                  // LF
    (&[0x09], 0, horizontal_tab::new),                  // HT
    (&[0x0c], 0, formfeed::new),                  // FF
    (&[0x1b, 0x0c], 0, page_mode_print_data::new),            // ESC FF: print page
    (&[0x1b, b'2'], 0, default_line_spacing::new),            // ESC 2: default line spacing
    (&[0x1b, b'@'], 0, initialize::new),            // ESC @: initialize
    (&[0x1b, b'L'], 0, set_page_mode::new),            // ESC L: page mode
    (&[0x1b, b'S'], 0, select_standard_mode::new),            // ESC S: standard mode
    (&[0x1b, b'c', 3], 1, paper_end_sensor::new),         // ESC c 3: paper end sensor
    (&[0x1b, b'c', 4], 1, print_stop_sensor::new),         // ESC c 4: print stop sensor
    (&[0x1b, b'c', 5], 1, set_panel_buttons::new),         // ESC c 5: panel buttons
    (&[0x1b, b'd'], 1, print_and_feed_lines::new),            // ESC d: feed lines
    (&[0x1b, b'e'], 1, print_and_reverse_feed_lines::new),            // ESC e: reverse feed
    (&[0x1b, b'J'], 1, print_and_feed::new),            // ESC J: feed
    (&[0x1b, b'p'], 3, pulse::new),            // ESC p: pulse
    (&[0x1b, b'$'], 2, set_horizontal_pos::new),            // ESC $: absolute horizontal position
    (&[0x1b, b'r'], 1, set_alt_color::new),            // ESC r: alternate colour
    (&[0x1d, b'h'], 1, set_barcode_height::new),            // GS h: barcode height
    (&[0x1d, b'w'], 1, set_barcode_width::new),            // GS w: barcode width
    (&[0x1d, b'B'], 1, set_black_white_invert::new),            // GS B: inversion
    (&[0x1d, b'!'], 1, set_character_size::new),            // GS !: character size
    (&[0x1b, b't'], 1, set_code_table::new),            // ESC t: code table
    (&[0x1b, b'G'], 1, set_double_strike::new),            // ESC G: double strike
    (&[0x1b, b'E'], 1, set_emphasis::new),            // ESC E: emphasis
    (&[0x1b, b'M'], 1, set_font::new),            // ESC M: font
    (&[0x1d, b'P'], 2, set_motion_units::new),            // GS P: motion units
    (&[0x1d, b'f'], 1, set_barcode_font::new),            // GS f: barcode font
    (&[0x1d, b'H'], 1, set_barcode_hri::new),            // GS H: barcode text
    (&[0x1b, b'R'], 1, set_international_charset::new),            // ESC R: character set
    (&[0x1b, 0x34], 1, set_italic::new),            // ESC 4: italic
    (&[0x1b, b'a'], 1, set_justification::new),            // ESC a: justification
    (&[0x1b, b'3'], 1, set_line_spacing::new),            // ESC 3: line spacing
    (&[0x1b, b'='], 1, set_peripheral_device::new),            // ESC =: peripheral device
    (&[0x1b, b'!'], 1, set_print_mode::new),            // ESC !: print mode
    (&[0x1d, b'\\'], 2, offset_vertical_pos::new),           // GS \: relative vertical position
    (&[0x1d, b'b'], 1, set_smoothing::new),            // GS b: smoothing
    (&[0x1b, b'D'], 2, set_tab_len::new),            // ESC D: tab
    (&[0x1b, b'-'], 1, set_underline::new),            // ESC -: underline
    (&[0x1b, b'{'], 1, set_upside_down::new),            // ESC {: upside down
    (&[0x1d, b'I'], 1, transmit_printer_id::new),            // GS I: printer id
    (&[0x1d, b'$'], 2, set_vertical_pos::new),            // GS $: absolute vertical position
    (&[0x1b, b'W'], 8, page_mode_print_area::new),            // ESC W: print area
    (&[0x1b, b'T'], 1, page_mode_print_direction::new),            // ESC T: print direction
    (&[0x1d, b'(', b'G'], 4, unknown_gs_g::new),      // GS ( G
];

/// selector bytes of the 2D code functions that set or store something
pub const CODE2D: &[(u8, u8)] = &[
    (48, 65), (48, 66), (48, 67), (48, 69), (48, 70), (48, 80), (48, 81), (48, 82),
    (49, 65), (49, 67), (49, 69), (49, 80), (49, 81), (49, 82),
    (50, 65), (50, 80), (50, 81), (50, 82),
    (51, 67), (51, 71), (51, 80), (51, 81), (51, 82),
    (52, 67), (52, 71), (52, 72), (52, 80), (52, 81), (52, 82),
    (53, 66), (53, 67), (53, 69), (53, 80), (53, 81), (53, 82),
    (54, 66), (54, 67), (54, 80), (54, 81), (54, 82),
];
pub const GRAPHICS: &[u8] = &[0, 48, 1, 49, 2, 50, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 112, 113, 4, 52];

#[cfg(not(kani))]
fn few(nd: &mut Nd, max: u32) -> Vec<u8> {
    let n = nd.range(0, max) as usize;
    nd.bytes(n)
}

/// The bytes of some complete command.
#[cfg(not(kani))]
pub fn any_command(nd: &mut Nd) -> Vec<u8> {
    match nd.range(0, 11) {
        0..=5 => {
            let (op, n, _) = FIXED[nd.range(0, FIXED.len() as u32 - 1) as usize];
            let mut v = op.to_vec();
            v.extend(nd.bytes(n));
            v
        }
        6 => {
            let sel = CODE2D[nd.range(0, CODE2D.len() as u32 - 1) as usize];
            let d = few(nd, 5);
            envelope2d(sel, &d)
        }
        7 => {
            let f = GRAPHICS[nd.range(0, GRAPHICS.len() as u32 - 1) as usize];
            graphics(nd, f)
        }
        8 => {
            // character effects
            let d = few(nd, 4);
            let mut v = vec![0x1d, b'(', b'N', d.len() as u8 + 1, 0, 48 + nd.range(0, 2) as u8];
            v.extend(d);
            v
        }
        9 => image(nd),
        10 => barcode(nd),
        _ => text(nd, 6),
    }
}
#[cfg(not(kani))]
pub fn text(nd: &mut Nd, max: u32) -> Vec<u8> {
    let n = nd.range(1, max) as usize;
    let mut v = vec![];
    for _ in 0..n {
        v.push(nd.range(32, 126) as u8);
    }
    v
}
#[cfg(not(kani))]
pub fn barcode(nd: &mut Nd) -> Vec<u8> {
    let mut v = vec![0x1d, b'k'];
    let k = nd.range(0, 15) as u8;
    let n = nd.range(0, 13) as usize;
    let mut d = vec![];
    for _ in 0..n {
        d.push(nd.range(48, 57) as u8);
    }
    if k <= 6 {
        v.push(k);
        v.extend(d);
        v.push(0);
    } else {
        v.push(65 + k - 7);
        v.push(n as u8);
        v.extend(d);
    }
    v
}
/// A column or raster image, or a cut.
#[cfg(not(kani))]
pub fn image(nd: &mut Nd) -> Vec<u8> {
    match nd.range(0, 2) {
        0 => {
            let m = nd.pick(&[0u8, 1, 32, 33, 7]);
            let w = nd.range(0, 5) as usize;
            let per = if m == 32 || m == 33 { 3 } else { 1 };
            let mut v = vec![0x1b, b'*', m, w as u8, 0];
            v.extend(nd.bytes(w * per));
            v
        }
        1 => {
            let w = nd.range(0, 3) as usize;
            let h = nd.range(0, 3) as usize;
            let m = nd.pick(&[0u8, 1, 2, 3, 48, 49, 50, 51, 9]);
            let mut v = vec![0x1d, b'v', b'0', m, w as u8, 0, h as u8, 0];
            v.extend(nd.bytes(w * h));
            v
        }
        _ => {
            let m = nd.u8();
            let mut v = vec![0x1d, b'V', m];
            if !matches!(m, 0 | 1 | 48 | 49) {
                v.push(nd.u8());
            }
            v
        }
    }
}
/// A graphics function with (mostly) well formed parameters.
#[cfg(not(kani))]
pub fn graphics(nd: &mut Nd, f: u8) -> Vec<u8> {
    let w = nd.range(0, 9);
    let h = nd.range(0, 5);
    let keys = [nd.range(32, 34) as u8, nd.range(32, 33) as u8];
    let size = if nd.bool() { (w + 7) / 8 * h } else { w * ((h + 7) / 8) } as usize;
    let d = match f {
        67 | 68 | 83 | 84 => {
            let b = nd.range(0, 3) as usize;
            let mut d = vec![48, keys[0], keys[1], b as u8, w as u8, 0, h as u8, 0];
            for _ in 0..b {
                d.push(nd.range(48, 52) as u8);
                d.extend(nd.bytes(size));
            }
            d
        }
        112 | 113 => {
            let mut d = vec![48, nd.range(0, 3) as u8, nd.range(0, 3) as u8, nd.range(48, 52) as u8, w as u8, 0, h as u8, 0];
            d.extend(nd.bytes(size));
            d
        }
        66 | 69 | 82 | 85 => vec![keys[0], keys[1], 1, 1],
        _ => few(nd, 3),
    };
    envelope_graphics(f, &d)
}
