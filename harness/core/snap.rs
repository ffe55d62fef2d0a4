//! Abstract view of the printer state (the observable part of `Context`), so that a contract
//! can state a postcondition over the whole state: the attribute the command sets, and the
//! frame (everything else unchanged).
use crate::nd::Nd;
use std::mem::ManuallyDrop;
use thermal_parser::context::*;
use thermal_parser::graphics::RGBA;

#[derive(Clone, PartialEq, Debug)]
pub struct Area {
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
}

#[derive(Clone, PartialEq, Debug)]
pub struct TextSnap {
    pub character_width: u8,
    pub character_height: u8,
    pub character_set: u8,
    pub code_table: u8,
    pub decoder: (usize, usize, bool),
    pub font_size: u8,
    pub justify: u8,
    pub font: u8,
    pub bold: bool,
    pub italic: bool,
    pub underline: u8,
    pub strikethrough: u8,
    pub invert: bool,
    pub width_mult: u8,
    pub height_mult: u8,
    pub upside_down: bool,
    pub line_spacing: u8,
    pub color: u32,
    pub background_color: u32,
    pub shadow_color: u32,
    pub shadow: bool,
    pub smoothing: bool,
    pub tabs: (usize, u64, u64, u64, u64),
}

#[derive(Clone, PartialEq, Debug)]
pub struct BarcodeSnap {
    pub hri: u8,
    pub width: u8,
    pub height: u8,
    pub font: u8,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Code2dSnap {
    pub stored: bool,
    pub qr_model: u8,
    pub qr_ec: u8,
    pub qr_size: u8,
    pub pdf417_columns: u8,
    pub pdf417_rows: u8,
    pub pdf417_width: u8,
    pub pdf417_row_height: u8,
    pub pdf417_err: u8,
    pub pdf417_truncated: bool,
    pub maxicode_mode: u8,
    pub gs1_width: u8,
    pub gs1_max_width: u32,
    pub composite_width: u8,
    pub composite_max_width: u32,
    pub composite_font: u8,
    pub aztec_mode: u8,
    pub aztec_layers: u8,
    pub aztec_size: u8,
    pub aztec_err: u8,
    pub datamatrix_type: u8,
    pub datamatrix_columns: u8,
    pub datamatrix_rows: u8,
    pub datamatrix_width: u8,
}

#[derive(Clone, PartialEq, Debug)]
pub struct GraphicsSnap {
    pub render_area: Area,
    pub paper_area: Area,
    pub colors: (u32, u32, u32, u32),
    pub dpi: u16,
    pub v_motion: u8,
    pub h_motion: u8,
    pub count: u16,
    pub stored: usize,
    pub buffered: usize,
}

#[derive(Clone, PartialEq, Debug)]
pub struct PageSnap {
    pub enabled: bool,
    pub logical: Area,
    pub render: Area,
    pub page: Area,
    pub direction: u8,
    pub previous: u8,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Snap {
    pub text: TextSnap,
    pub barcode: BarcodeSnap,
    pub code2d: Code2dSnap,
    pub graphics: GraphicsSnap,
    pub page: PageSnap,
}

pub fn font_no(f: &Font) -> u8 {
    match f {
        Font::A => 0,
        Font::B => 1,
        Font::C => 2,
        Font::D => 3,
        Font::E => 4,
        Font::SpecialA => 97,
        Font::SpecialB => 98,
    }
}
pub fn justify_no(j: &TextJustify) -> u8 {
    match j {
        TextJustify::Left => 0,
        TextJustify::Center => 1,
        TextJustify::Right => 2,
    }
}
pub fn hri_no(h: &HumanReadableInterface) -> u8 {
    match h {
        HumanReadableInterface::None => 0,
        HumanReadableInterface::Above => 1,
        HumanReadableInterface::Below => 2,
        HumanReadableInterface::Both => 3,
    }
}
pub fn dir_no(d: &PrintDirection) -> u8 {
    match d {
        PrintDirection::TopLeft2Right => 0,
        PrintDirection::BottomLeft2Top => 1,
        PrintDirection::BottomRight2Left => 2,
        PrintDirection::TopRight2Bottom => 3,
    }
}
pub fn underline_no(u: &TextUnderline) -> u8 {
    match u {
        TextUnderline::Off => 0,
        TextUnderline::On => 1,
        TextUnderline::Double => 2,
    }
}
pub fn strike_no(u: &TextStrikethrough) -> u8 {
    match u {
        TextStrikethrough::Off => 0,
        TextStrikethrough::On => 1,
        TextStrikethrough::Double => 2,
    }
}
pub fn rgba(c: &RGBA) -> u32 {
    u32::from_le_bytes([c.r, c.g, c.b, c.a])
}
pub fn area(a: &RenderArea) -> Area {
    Area { x: a.x, y: a.y, w: a.w, h: a.h }
}
pub fn decoder_id(d: &thermal_parser::decoder::Codepage) -> (usize, usize, bool) {
    #[cfg(kani)]
    return (d.name.len(), d.language.len(), d.use_utf8_table);
    #[cfg(not(kani))]
    (d.name.as_ptr() as usize, d.language.as_ptr() as usize, d.use_utf8_table)
}
pub fn tabs(t: &Vec<u8>) -> (usize, u64, u64, u64, u64) {
    if t.len() == 32 {
        // 32 bytes are initialised: read them as four words
        let w: [u64; 4] = unsafe { std::ptr::read_unaligned(t.as_ptr() as *const [u64; 4]) };
        (32, w[0], w[1], w[2], w[3])
    } else {
        (t.len(), 0, 0, 0, 0)
    }
}

pub fn text(c: &TextContext) -> TextSnap {
    TextSnap {
        character_width: c.character_width,
        character_height: c.character_height,
        character_set: c.character_set,
        code_table: c.code_table,
        decoder: decoder_id(&c.decoder),
        font_size: c.font_size,
        justify: justify_no(&c.justify),
        font: font_no(&c.font),
        bold: c.bold,
        italic: c.italic,
        underline: underline_no(&c.underline),
        strikethrough: strike_no(&c.strikethrough),
        invert: c.invert,
        width_mult: c.width_mult,
        height_mult: c.height_mult,
        upside_down: c.upside_down,
        line_spacing: c.line_spacing,
        color: rgba(&c.color),
        background_color: rgba(&c.background_color),
        shadow_color: rgba(&c.shadow_color),
        shadow: c.shadow,
        smoothing: c.smoothing,
        tabs: tabs(&c.tabs),
    }
}

pub fn snap(c: &Context) -> Snap {
    let d = &c.code2d;
    let g = &c.graphics;
    let p = &c.page_mode;
    Snap {
        text: text(&c.text),
        barcode: BarcodeSnap {
            hri: hri_no(&c.barcode.human_readable),
            width: c.barcode.width,
            height: c.barcode.height,
            font: font_no(&c.barcode.font),
        },
        code2d: Code2dSnap {
            stored: d.symbol_storage.is_some(),
            qr_model: match d.qr_model {
                QrModel::Model1 => 1,
                QrModel::Model2 => 2,
                QrModel::Micro => 3,
            },
            qr_ec: match d.qr_error_correction {
                QrErrorCorrection::L => 0,
                QrErrorCorrection::M => 1,
                QrErrorCorrection::Q => 2,
                QrErrorCorrection::H => 3,
            },
            qr_size: d.qr_size,
            pdf417_columns: d.pdf417_columns,
            pdf417_rows: d.pdf417_rows,
            pdf417_width: d.pdf417_width,
            pdf417_row_height: d.pdf417_row_height,
            pdf417_err: d.pdf417_err_correction,
            pdf417_truncated: d.pdf417_is_truncated,
            maxicode_mode: d.maxicode_mode,
            gs1_width: d.gs1_databar_width,
            gs1_max_width: d.gs1_databar_max_width,
            composite_width: d.composite_width,
            composite_max_width: d.composite_max_width,
            composite_font: font_no(&d.composite_font),
            aztec_mode: d.aztec_mode,
            aztec_layers: d.aztec_layers,
            aztec_size: d.aztec_size,
            aztec_err: d.aztec_error_correction,
            datamatrix_type: d.datamatrix_type,
            datamatrix_columns: d.datamatrix_columns,
            datamatrix_rows: d.datamatrix_rows,
            datamatrix_width: d.datamatrix_width,
        },
        graphics: GraphicsSnap {
            render_area: area(&g.render_area),
            paper_area: area(&g.paper_area),
            colors: (
                rgba(&g.render_colors.paper_color),
                rgba(&g.render_colors.color_1),
                rgba(&g.render_colors.color_2),
                rgba(&g.render_colors.color_3),
            ),
            dpi: g.dots_per_inch,
            v_motion: g.v_motion_unit,
            h_motion: g.h_motion_unit,
            count: g.graphics_count,
            stored: g.stored_graphics.len(),
            buffered: g.buffer_graphics.len(),
        },
        page: PageSnap {
            enabled: p.enabled,
            logical: area(&p.logical_area),
            render: area(&p.render_area),
            page: area(&p.page_area),
            direction: dir_no(&p.direction),
            previous: dir_no(&p.previous_direction),
        },
    }
}

pub fn nd_rgba(nd: &mut Nd) -> RGBA {
    RGBA { r: nd.u8(), g: nd.u8(), b: nd.u8(), a: nd.u8() }
}
pub fn nd_dir(nd: &mut Nd) -> PrintDirection {
    match nd.range(0, 3) {
        0 => PrintDirection::TopLeft2Right,
        1 => PrintDirection::BottomLeft2Top,
        2 => PrintDirection::BottomRight2Left,
        _ => PrintDirection::TopRight2Bottom,
    }
}
pub fn nd_justify(nd: &mut Nd) -> TextJustify {
    match nd.range(0, 2) {
        0 => TextJustify::Left,
        1 => TextJustify::Center,
        _ => TextJustify::Right,
    }
}
pub fn nd_font(nd: &mut Nd) -> Font {
    match nd.range(0, 6) {
        0 => Font::A,
        1 => Font::B,
        2 => Font::C,
        3 => Font::D,
        4 => Font::E,
        5 => Font::SpecialA,
        _ => Font::SpecialB,
    }
}
pub fn nd_area(nd: &mut Nd) -> RenderArea {
    RenderArea { x: nd.u32(), y: nd.u32(), w: nd.u32(), h: nd.u32() }
}

/// The printer state right after power on.
pub fn fresh() -> ManuallyDrop<Context> {
    ManuallyDrop::new(Context::new())
}

/// An arbitrary text style state (every attribute of the text context but the tab stops and
/// the decoder table).
pub fn havoc_text(nd: &mut Nd, c: &mut Context) {
    let t = &mut c.text;
    t.character_width = nd.u8();
    t.character_height = nd.u8();
    t.character_set = nd.u8();
    t.code_table = nd.u8();
    t.font_size = nd.u8();
    t.justify = nd_justify(nd);
    t.font = nd_font(nd);
    t.bold = nd.bool();
    t.italic = nd.bool();
    t.underline = match nd.range(0, 2) {
        0 => TextUnderline::Off,
        1 => TextUnderline::On,
        _ => TextUnderline::Double,
    };
    t.strikethrough = match nd.range(0, 2) {
        0 => TextStrikethrough::Off,
        1 => TextStrikethrough::On,
        _ => TextStrikethrough::Double,
    };
    t.invert = nd.bool();
    t.width_mult = nd.u8();
    t.height_mult = nd.u8();
    t.upside_down = nd.bool();
    t.line_spacing = nd.u8();
    t.color = nd_rgba(nd);
    t.background_color = nd_rgba(nd);
    t.shadow_color = nd_rgba(nd);
    t.shadow = nd.bool();
    t.smoothing = nd.bool();
}
pub fn havoc_barcode(nd: &mut Nd, c: &mut Context) {
    c.barcode.human_readable = match nd.range(0, 3) {
        0 => HumanReadableInterface::None,
        1 => HumanReadableInterface::Above,
        2 => HumanReadableInterface::Below,
        _ => HumanReadableInterface::Both,
    };
    c.barcode.width = nd.u8();
    c.barcode.height = nd.u8();
    c.barcode.font = nd_font(nd);
}
pub fn havoc_code2d(nd: &mut Nd, c: &mut Context) {
    let d = &mut c.code2d;
    d.qr_model = match nd.range(0, 2) {
        0 => QrModel::Model1,
        1 => QrModel::Model2,
        _ => QrModel::Micro,
    };
    d.qr_error_correction = match nd.range(0, 3) {
        0 => QrErrorCorrection::L,
        1 => QrErrorCorrection::M,
        2 => QrErrorCorrection::Q,
        _ => QrErrorCorrection::H,
    };
    d.qr_size = nd.u8();
    d.pdf417_columns = nd.u8();
    d.pdf417_rows = nd.u8();
    d.pdf417_width = nd.u8();
    d.pdf417_row_height = nd.u8();
    d.pdf417_err_correction = nd.u8();
    d.pdf417_is_truncated = nd.bool();
    d.maxicode_mode = nd.u8();
    d.gs1_databar_width = nd.u8();
    d.gs1_databar_max_width = nd.u32();
    d.composite_width = nd.u8();
    d.composite_max_width = nd.u32();
    d.composite_font = nd_font(nd);
    d.aztec_mode = nd.u8();
    d.aztec_layers = nd.u8();
    d.aztec_size = nd.u8();
    d.aztec_error_correction = nd.u8();
    d.datamatrix_type = nd.u8();
    d.datamatrix_columns = nd.u8();
    d.datamatrix_rows = nd.u8();
    d.datamatrix_width = nd.u8();
}
pub fn havoc_colors(nd: &mut Nd, c: &mut Context) {
    c.graphics.render_colors =
        RenderColors { paper_color: nd_rgba(nd), color_1: nd_rgba(nd), color_2: nd_rgba(nd), color_3: nd_rgba(nd) };
}
/// Arbitrary positions and sizes below max.
pub fn nd_area_below(nd: &mut Nd, max: u32) -> RenderArea {
    RenderArea { x: nd.below(max), y: nd.below(max), w: nd.below(max), h: nd.below(max) }
}
pub fn havoc_places(nd: &mut Nd, c: &mut Context, max: u32) {
    c.graphics.render_area = nd_area_below(nd, max);
    c.graphics.paper_area = nd_area_below(nd, max);
    let p = &mut c.page_mode;
    p.enabled = nd.bool();
    p.logical_area = nd_area_below(nd, max);
    p.render_area = nd_area_below(nd, max);
    p.page_area = nd_area_below(nd, max);
    p.direction = nd_dir(nd);
    p.previous_direction = nd_dir(nd);
}
/// Arbitrary positions and sizes; motion units are at least 1 (the invariant every command
/// that sets them has to preserve).
pub fn havoc_geometry(nd: &mut Nd, c: &mut Context) {
    c.graphics.render_area = nd_area(nd);
    c.graphics.paper_area = nd_area(nd);
    c.graphics.dots_per_inch = nd.u16();
    c.graphics.v_motion_unit = nd.u8();
    c.graphics.h_motion_unit = nd.u8();
    nd.assume(c.graphics.v_motion_unit > 0 && c.graphics.h_motion_unit > 0);
    c.graphics.graphics_count = nd.u16();
}
pub fn havoc_page(nd: &mut Nd, c: &mut Context) {
    let p = &mut c.page_mode;
    p.enabled = nd.bool();
    p.logical_area = nd_area(nd);
    p.render_area = nd_area(nd);
    p.page_area = nd_area(nd);
    p.direction = nd_dir(nd);
    p.previous_direction = nd_dir(nd);
}
/// An arbitrary printer state.
pub fn any_state(nd: &mut Nd) -> ManuallyDrop<Context> {
    let mut c = fresh();
    havoc_text(nd, &mut c);
    havoc_barcode(nd, &mut c);
    havoc_code2d(nd, &mut c);
    havoc_colors(nd, &mut c);
    havoc_geometry(nd, &mut c);
    havoc_page(nd, &mut c);
    c
}
