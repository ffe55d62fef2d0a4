//! C06: barcode and 2D code settings are stored exactly and independently.
use crate::nd::Nd;
use crate::snap::*;
use crate::util::*;
use thermal_parser::command::*;
use thermal_parser::commands::*;
use thermal_parser::context::*;
#[cfg(kani)]
use thermal_parser::subcommands::gs_code2d;

/// Applies the 2D code function with the given selector bytes to the given parameters.
/// Natively the bytes of the command are parsed; under Kani (where the whole command set is out
/// of reach) the named function is used, and its selector bytes are checked.
#[cfg(not(kani))]
fn set2d(sel: (u8, u8), data: Vec<u8>, c: &mut Context) {
    apply_stream(&envelope2d(sel, &data), c);
}
#[cfg(kani)]
fn set2d(sel: (u8, u8), data: Vec<u8>, c: &mut Context) {
    let k = find2d(sel);
    assert!(k.commands.len() == 2 && k.commands[0] == sel.0 && k.commands[1] == sel.1, "the function keeps its selector");
    apply_data(k, data, c);
}
#[cfg(kani)]
fn find2d(sel: (u8, u8)) -> Command {
    use gs_code2d::verif::*;
    match sel {
        (49, 65) => qr_set_model(),
        (49, 67) => qr_set_size(),
        (49, 69) => qr_set_correction_level(),
        (48, 65) => pdf417_set_column_count(),
        (48, 66) => pdf417_set_row_count(),
        (48, 67) => pdf417_set_width(),
        (48, 70) => pdf417_set_options(),
        (48, 69) => pdf417_set_correction_level(),
        (50, 65) => maxi_set_mode(),
        (51, 67) => gs1_set_width(),
        (51, 71) => gs1_set_max_width(),
        (52, 67) => composite_set_width(),
        (52, 71) => composite_set_max_width(),
        (52, 72) => composite_set_hri(),
        (53, 66) => aztec_set_function_and_layers(),
        (53, 67) => aztec_set_size(),
        (53, 69) => aztec_set_correction_level(),
        (54, 67) => datamatrix_set_width(),
        (54, 66) => datamatrix_set_options(),
        _ => panic!(),
    }
}

fn barcode(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    match nd.range(0, 3) {
        0 => {
            apply(set_barcode_height::new(), &[n], c);
            want.barcode.height = n;
        }
        1 => {
            apply(set_barcode_width::new(), &[n], c);
            if n < 2 {
                want.barcode.width = 2
            } else if n <= 6 {
                want.barcode.width = n
            }
        }
        2 => {
            apply(set_barcode_hri::new(), &[n], c);
            want.barcode.hri = match n { 1 | 49 => 1, 2 | 50 => 2, 3 | 51 => 3, _ => 0 };
        }
        _ => {
            apply(set_barcode_font::new(), &[n], c);
            want.barcode.font = match n { 1 | 49 => 1, 2 | 50 => 2, 3 | 51 => 3, 4 | 52 => 4, 97 => 97, 98 => 98, _ => 0 };
        }
    }
    assert!(snap(c) == want, "a barcode setting stores its parameter and nothing else");
}
fn qr_model(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    let n2 = nd.u8();
    set2d((49, 65), vec![n, n2], c);
    want.code2d.qr_model = match n { 50 => 2, 51 => 3, _ => 1 };
    assert!(snap(c) == want, "QR model: 49 and 50 select models 1 and 2, 51 micro, nothing else changes");
}
fn qr_size(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    set2d((49, 67), vec![n], c);
    want.code2d.qr_size = n;
    assert!(snap(c) == want, "QR module size is stored, nothing else changes");
}
fn qr_correction(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    set2d((49, 69), vec![n], c);
    // 48..51 are the documented values, the rest has no documented meaning
    let got = snap(c);
    want.code2d.qr_ec = if n >= 48 && n <= 51 { n - 48 } else { got.code2d.qr_ec };
    assert!(got == want, "QR error correction 48 to 51 is L, M, Q, H, nothing else changes");
}
fn pdf417_bytes(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    match nd.range(0, 3) {
        0 => {
            set2d((48, 65), vec![n], c);
            want.code2d.pdf417_columns = n;
        }
        1 => {
            set2d((48, 66), vec![n], c);
            want.code2d.pdf417_rows = n;
        }
        2 => {
            set2d((48, 67), vec![n], c);
            want.code2d.pdf417_width = n;
        }
        _ => {
            set2d((48, 70), vec![n], c);
            want.code2d.pdf417_truncated = n != 0;
        }
    }
    assert!(snap(c) == want, "a PDF417 setting stores its parameter and nothing else");
}
fn pdf417_correction(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let m = nd.u8();
    let n = nd.u8();
    set2d((48, 69), vec![m, n], c);
    if m == 48 && n >= 48 && n <= 56 {
        want.code2d.pdf417_err = n - 48;
    } else if m == 49 {
        want.code2d.pdf417_err = 1;
    }
    assert!(snap(c) == want, "PDF417 level 48..56 is stored, other levels are ignored, nothing else changes");
}
fn maxicode(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    set2d((50, 65), vec![n], c);
    if n >= 50 && n <= 54 {
        want.code2d.maxicode_mode = n - 48;
    }
    assert!(snap(c) == want, "MaxiCode modes 2 to 6 are stored, others ignored, nothing else changes");
}
fn gs1(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    let h = nd.u8();
    if nd.bool() {
        set2d((51, 67), vec![n], c);
        want.code2d.gs1_width = n;
    } else {
        set2d((51, 71), vec![n, h], c);
        want.code2d.gs1_max_width = n as u32 + 256 * h as u32;
    }
    assert!(snap(c) == want, "a GS1 DataBar setting stores its parameter and nothing else");
}
fn composite(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    let h = nd.u8();
    match nd.range(0, 2) {
        0 => {
            set2d((52, 67), vec![n], c);
            want.code2d.composite_width = n;
        }
        1 => {
            set2d((52, 71), vec![n, h], c);
            want.code2d.composite_max_width = n as u32 + 256 * h as u32;
        }
        _ => {
            set2d((52, 72), vec![n], c);
            want.code2d.composite_font = match n { 1 | 49 => 1, 2 | 50 => 2, 3 | 51 => 3, 4 | 52 => 4, 97 => 97, 98 => 98, _ => 0 };
        }
    }
    assert!(snap(c) == want, "a composite setting stores its parameter and nothing else");
}
fn aztec(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    let m = nd.u8();
    match nd.range(0, 2) {
        0 => {
            set2d((53, 66), vec![n, m], c);
            want.code2d.aztec_mode = if n == 1 || n == 49 { 1 } else { 0 };
            want.code2d.aztec_layers = if m <= 32 { m } else { 0 };
        }
        1 => {
            set2d((53, 67), vec![n], c);
            if n >= 2 && n <= 16 {
                want.code2d.aztec_size = n;
            }
        }
        _ => {
            set2d((53, 69), vec![n], c);
            want.code2d.aztec_err = n;
        }
    }
    assert!(snap(c) == want, "an Aztec setting stores its parameter and nothing else");
}
fn datamatrix(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let m = nd.u8();
    let d1 = nd.u8();
    let d2 = nd.u8();
    if nd.bool() {
        set2d((54, 67), vec![m], c);
        want.code2d.datamatrix_width = m;
    } else {
        set2d((54, 66), vec![m, d1, d2], c);
        if matches!(m, 0 | 48 | 1 | 49) {
            want.code2d.datamatrix_type = if matches!(m, 1 | 49) { 1 } else { 0 };
            want.code2d.datamatrix_columns = d1;
            want.code2d.datamatrix_rows = d2;
        }
    }
    assert!(snap(c) == want, "a Data Matrix setting stores its parameter and nothing else");
}

crate::contracts! {
    states 8 fn c06_barcode { barcode }
    states 8 fn c06_qr_model_size { qr_model, qr_size }
    states 8 fn c06_qr_correction_maxicode { qr_correction, maxicode }
    states 8 fn c06_pdf417 { pdf417_bytes }
    states 8 fn c06_pdf417_correction_gs1 { pdf417_correction, gs1 }
    states 8 fn c06_composite { composite }
    states 8 fn c06_aztec { aztec }
    states 8 fn c06_datamatrix { datamatrix }
}
