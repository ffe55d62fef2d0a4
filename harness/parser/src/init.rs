//! C09: initialize restores the power-on state.
use crate::nd::Nd;
use crate::snap::*;
use crate::util::*;
use std::mem::ManuallyDrop;
use thermal_parser::commands::*;
use thermal_parser::context::*;
use thermal_parser::graphics::{Code2D, GraphicsCommand, ImageRef, ImageRefStorage};

/// The documented power-on values (203 dpi, 3.2 inch paper with margins of 0.1 inch).
fn power_on() -> Snap {
    let black = u32::from_le_bytes([0, 0, 0, 255]);
    let white = u32::MAX;
    let t = 0x0808_0808_0808_0808u64;
    let fresh = ManuallyDrop::new(Context::new());
    Snap {
        text: TextSnap {
            character_width: 12, character_height: 24, character_set: 0, code_table: 0,
            decoder: decoder_id(&fresh.text.decoder), font_size: 10, justify: 0, font: 0, bold: false,
            italic: false, underline: 0, strikethrough: 0, invert: false, width_mult: 1, height_mult: 1,
            upside_down: false, line_spacing: 24, color: black, background_color: white,
            shadow_color: black, shadow: false, smoothing: false, tabs: (32, t, t, t, t),
        },
        barcode: BarcodeSnap { hri: 0, width: 3, height: 40, font: 0 },
        code2d: Code2dSnap {
            stored: false, qr_model: 1, qr_ec: 0, qr_size: 3, pdf417_columns: 0, pdf417_rows: 0, pdf417_width: 0,
            pdf417_row_height: 0, pdf417_err: 0, pdf417_truncated: false, maxicode_mode: 0, gs1_width: 0,
            gs1_max_width: 0, composite_width: 0, composite_max_width: 0, composite_font: 0, aztec_mode: 0,
            aztec_layers: 0, aztec_size: 0, aztec_err: 0, datamatrix_type: 0, datamatrix_columns: 0,
            datamatrix_rows: 0, datamatrix_width: 0,
        },
        graphics: GraphicsSnap {
            render_area: Area { x: 0, y: 60, w: 609, h: 0 },
            paper_area: Area { x: 20, y: 20, w: 649, h: 0 },
            colors: (white, black, u32::from_le_bytes([158, 22, 22, 255]), u32::from_le_bytes([27, 57, 169, 255])),
            dpi: 203, v_motion: 1, h_motion: 1, count: 0, stored: 0, buffered: 0,
        },
        page: PageSnap {
            enabled: false, logical: Area { x: 0, y: 0, w: 0, h: 0 }, render: Area { x: 0, y: 0, w: 0, h: 0 },
            page: Area { x: 0, y: 0, w: 0, h: 0 }, direction: 0, previous: 0,
        },
    }
}

fn reset(nd: &mut Nd, c: &mut Context, want: Snap) {
    // natively also the parts of the state that are not plain values
    if cfg!(not(kani)) && nd.bool() {
        c.code2d.symbol_storage = Some(Code2D { points: vec![1], width: 1, point_width: 1, point_height: 1 });
    }
    if cfg!(not(kani)) && nd.bool() {
        c.graphics.buffer_graphics = vec![GraphicsCommand::Error(String::new())];
    }
    if cfg!(not(kani)) && nd.bool() {
        c.text.tabs = vec![nd.u8(); 3];
    }
    // (under Kani the kept power-on values live on the stack instead of in a box, which keeps
    // the empty collections they own visible to the symbolic execution)
    #[cfg(kani)]
    let mut kept = fresh();
    #[cfg(kani)]
    {
        std::mem::forget(kept.default.take());
        std::mem::forget(c.default.replace(unsafe { Box::from_raw(&mut *kept) }));
    }
    apply(initialize::new(), &[], c);
    let mut on = power_on();
    on.page = want.page;
    let got = snap(c);
    assert!(got.text == on.text, "initialize restores every text attribute");
    assert!(got.barcode == on.barcode, "initialize restores every barcode setting");
    assert!(got.code2d == on.code2d, "initialize restores every 2D code setting and forgets the stored symbol");
    assert!(got.graphics == on.graphics, "initialize restores colours, motion units, resolution, position and graphics");
    assert!(got.page == on.page, "initialize leaves page mode as it is");
}
fn line_spacing(_nd: &mut Nd, c: &mut Context, _want: Snap) {
    // the pristine copy survives a command that reads it
    apply(default_line_spacing::new(), &[], c);
    let d = c.default.as_ref().expect("the power-on values are kept");
    let on = power_on();
    let got = snap(d);
    assert!(got == on, "the power-on values themselves do not change");
    assert!(snap(c).text.line_spacing == 24);
}

crate::contracts! {
    full 8 fn c09_power_on(nd) {
        let c = fresh();
        let want = power_on();
        assert!(snap(&c) == want, "a new printer has the power-on values");
        let d = c.default.as_ref().expect("the power-on values are kept");
        assert!(snap(d) == want, "the kept power-on values are the power-on values");
        assert!(nd.u8() <= 255);
    }
    states 8 fn c09_reset { reset }
    states 8 fn c09_default_line_spacing { line_spacing }
    // whole histories: any command stream, then initialize
    exec fn c09_history(nd) {
        let mut c = fresh();
        let n = nd.range(0, 12);
        let mut bytes = vec![];
        for _ in 0..n {
            bytes.extend(crate::stream::any_command(nd));
        }
        let mut n_stored = 0;
        for k in parsed(&bytes) {
            k.handler.apply_context(&k, &mut c);
            n_stored += 1;
        }
        if nd.bool() {
            c.graphics.stored_graphics.insert(ImageRef { kc1: nd.u8(), kc2: nd.u8(), storage: ImageRefStorage::Disc },
                GraphicsCommand::Error(String::new()));
        }
        let page = snap(&c).page;
        apply_stream(&[0x1b, b'@'], &mut c);
        let mut want = power_on();
        want.page = page;
        let d = c.default.as_ref().expect("the power-on values are kept");
        assert!(snap(&c) == want, "initialize after {} commands restores the power-on state", n_stored);
        want.page = power_on().page;
        assert!(snap(d) == want, "no command changes the power-on values");
        // and once more, from the state after a reset
        let mut w2 = want.clone();
        w2.page = snap(&c).page;
        apply_stream(&[0x1b, b'E', 1, 0x1b, b'@'], &mut c);
        assert!(snap(&c) == w2, "initialize works every time");
    }
}
