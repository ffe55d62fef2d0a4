//@meta rlimit 8
//@meta assume HashMap<ImageRef, GraphicsCommand> is a finite map (the settings commands do not use it)
//@meta assume Context::update_decoder changes the decoder alone and is a function of code table and character set (decided by C24)
//@include command.inc
//@include printer.inc
verus! {
// ---------------------------------------------------------------- the effect of a settings command, field by field
pub open spec fn par(d: Seq<u8>, i: int, or: u8) -> u8 { if i < d.len() { d[i] } else { or } }
pub open spec fn num(n: u8, m: u8) -> bool { n == m || n == m + 48 }
pub open spec fn on(n: u8) -> bool { n % 2 == 1 }
proof fn low_bit()
    ensures forall |n: u8| (#[trigger] (n & 1u8)) == n % 2
{
    assert(forall |n: u8| (#[trigger] (n & 1u8)) == n % 2) by (bit_vector);
}
pub open spec fn font_of(n: u8) -> Font {
    if num(n, 1) { Font::B } else if num(n, 2) { Font::C } else if num(n, 3) { Font::D } else if num(n, 4) { Font::E }
    else if n == 97 { Font::SpecialA } else if n == 98 { Font::SpecialB } else { Font::A }
}
pub open spec fn cell_w(f: Font) -> u8 { if f == Font::A { 12 } else { 9 } }
pub open spec fn cell_h(f: Font) -> u8 { if f == Font::A { 24 } else { 17 } }
/// the same printer with another style
pub open spec fn styled(c: Context, t: TextContext) -> Context { Context { text: t, ..c } }
pub open spec fn in_font(t: TextContext, f: Font) -> TextContext {
    TextContext { font: f, character_width: cell_w(f), character_height: cell_h(f), ..t }
}
pub open spec fn coded(c: Context, b: Barcode2) -> Context { Context { code2d: b, ..c } }
pub type Barcode2 = Code2DContext;
pub open spec fn power_on(c: Context) -> Context { *c.default->0 }

pub uninterp spec fn decoder_of(table: u8, set: u8) -> AnyCodepage;
/// with the decoder of its table and set
pub open spec fn decoding(t: TextContext) -> TextContext { TextContext { decoder: decoder_of(t.code_table, t.character_set), ..t } }

//@use thermal_parser/src/context.rs
impl Font {
//@fn Font::from_raw
//@ret r
//@spec
    ensures r == font_of(byte)
//@end
//@fn Font::to_size
//@ret r
//@spec
    ensures r == (cell_w(*self), cell_h(*self))
//@end
}
impl Context {
//@fn Context::set_font
//@spec
    ensures *final(self) == styled(*old(self), in_font(old(self).text, font))
//@end
    #[verifier::external_body]
    pub fn update_decoder(&mut self)
        ensures *final(self) == styled(*old(self), decoding(old(self).text))
    { unimplemented!() }
}
//@use thermal_parser/src/util.rs
//@item type BitFlags
pub open spec fn flag(n: u8, k: int) -> bool {
    if k == 0 { n % 2 == 1 } else if k == 1 { (n / 2) % 2 == 1 } else if k == 2 { (n / 4) % 2 == 1 } else if k == 3 { (n / 8) % 2 == 1 }
    else if k == 4 { (n / 16) % 2 == 1 } else if k == 5 { (n / 32) % 2 == 1 } else if k == 6 { (n / 64) % 2 == 1 } else { n / 128 == 1 }
}
//@fn bitflags_lsb
//@sub byte & => *byte &
//@ret r
//@spec
    ensures r == (flag(*byte, 0), flag(*byte, 1), flag(*byte, 2), flag(*byte, 3), flag(*byte, 4), flag(*byte, 5), flag(*byte, 6), flag(*byte, 7))
//@at begin
    proof {
        assert(forall |n: u8| #![trigger (n & (1u8 << 0u8))] ((n & (1u8 << 0u8)) != 0) == (n % 2 == 1)) by (bit_vector);
        assert(forall |n: u8| #![trigger (n & (1u8 << 1u8))] ((n & (1u8 << 1u8)) != 0) == ((n / 2) % 2 == 1)) by (bit_vector);
        assert(forall |n: u8| #![trigger (n & (1u8 << 2u8))] ((n & (1u8 << 2u8)) != 0) == ((n / 4) % 2 == 1)) by (bit_vector);
        assert(forall |n: u8| #![trigger (n & (1u8 << 3u8))] ((n & (1u8 << 3u8)) != 0) == ((n / 8) % 2 == 1)) by (bit_vector);
        assert(forall |n: u8| #![trigger (n & (1u8 << 4u8))] ((n & (1u8 << 4u8)) != 0) == ((n / 16) % 2 == 1)) by (bit_vector);
        assert(forall |n: u8| #![trigger (n & (1u8 << 5u8))] ((n & (1u8 << 5u8)) != 0) == ((n / 32) % 2 == 1)) by (bit_vector);
        assert(forall |n: u8| #![trigger (n & (1u8 << 6u8))] ((n & (1u8 << 6u8)) != 0) == ((n / 64) % 2 == 1)) by (bit_vector);
        assert(forall |n: u8| #![trigger (n & (1u8 << 7u8))] ((n & (1u8 << 7u8)) != 0) == (n / 128 == 1)) by (bit_vector);
    }
//@end
// ---------------------------------------------------------------- text style (C05)
mod set_underline {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_underline.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, TextContext { underline: (if num(par(d, 0, 0), 1) { TextUnderline::On } else if num(par(d, 0, 0), 2) { TextUnderline::Double } else { TextUnderline::Off }), ..c.text }) }),
//@end
}
}
mod set_emphasis {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_emphasis.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, TextContext { bold: on(par(d, 0, 0)), ..c.text }) }),
//@at begin
    proof { low_bit(); }
//@end
}
}
mod set_italic {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_italic.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, TextContext { italic: on(par(d, 0, 0)), ..c.text }) }),
//@at begin
    proof { low_bit(); }
//@end
}
}
mod set_upside_down {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_upside_down.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, TextContext { upside_down: on(par(d, 0, 0)), ..c.text }) }),
//@at begin
    proof { low_bit(); }
//@end
}
}
mod set_smoothing {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_smoothing.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, TextContext { smoothing: on(par(d, 0, 0)), ..c.text }) }),
//@at begin
    proof { low_bit(); }
//@end
}
}
mod set_double_strike {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_double_strike.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, TextContext { strikethrough: (if on(par(d, 0, 0)) { TextStrikethrough::Double } else { TextStrikethrough::Off }), ..c.text }) }),
//@at begin
    proof { low_bit(); }
//@end
}
}
mod set_alt_color {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_alt_color.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, TextContext { color: (if num(par(d, 0, 0), 1) { c.graphics.render_colors.color_2 } else { c.graphics.render_colors.color_1 }), ..c.text }) }),
//@end
}
}
mod set_black_white_invert {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_black_white_invert.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, TextContext { invert: on(par(d, 0, 0)), color: (if on(par(d, 0, 0)) { c.graphics.render_colors.paper_color } else { c.graphics.render_colors.color_1 }), background_color: (if on(par(d, 0, 0)) { c.graphics.render_colors.color_1 } else { c.graphics.render_colors.paper_color }), ..c.text }) }),
//@at begin
    proof { low_bit(); }
//@end
}
}
mod set_font {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_font.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, in_font(c.text, font_of(par(d, 0, 0)))) }),
//@end
}
}
mod set_print_mode {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_print_mode.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, TextContext {
        bold: (par(d, 0, 0) / 8) % 2 == 1, height_mult: (if (par(d, 0, 0) / 16) % 2 == 1 { 2 } else { 1 }), width_mult: (if (par(d, 0, 0) / 32) % 2 == 1 { 2 } else { 1 }),
        underline: (if par(d, 0, 0) / 128 == 1 { TextUnderline::On } else { TextUnderline::Off }),
        ..in_font(c.text, if par(d, 0, 0) % 2 == 1 { Font::B } else { Font::A }) }) }),
//@end
}
}
mod set_character_effects {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_character_effects.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; 
        if d.len() < 3 { c }
        else if d[2] == 48 { styled(c, TextContext { color: color_of(c.graphics.render_colors, par(d, 3, 48)), ..c.text }) }
        else if d[2] == 49 { styled(c, TextContext { background_color: color_of(c.graphics.render_colors, par(d, 3, 48)), ..c.text }) }
        else if d[2] == 50 { styled(c, TextContext { shadow_color: color_of(c.graphics.render_colors, par(d, 3, 48)), shadow: !num(par(d, 4, 0), 0), ..c.text }) }
        else { c } }),
//@end
}
}
mod set_line_spacing {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_line_spacing.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    requires old(context).default is Some
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, TextContext { line_spacing: par(d, 0, power_on(c).text.line_spacing), ..c.text }) }),
//@end
}
}
mod default_line_spacing {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/default_line_spacing.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; if c.default is Some { styled(c, TextContext { line_spacing: power_on(c).text.line_spacing, ..c.text }) } else { c } }),
//@end
}
}
mod set_code_table {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_code_table.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, decoding(TextContext { code_table: par(d, 0, 0), ..c.text })) }),
//@end
}
}
mod set_international_charset {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_international_charset.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; styled(c, decoding(TextContext { character_set: par(d, 0, 0), ..c.text })) }),
//@end
}
}
// ---------------------------------------------------------------- barcodes (C06)
mod set_barcode_font {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_barcode_font.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { barcode: BarcodeContext { font: font_of(par(d, 0, 0)), ..c.barcode }, ..c } }),
//@end
}
}
mod set_barcode_height {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_barcode_height.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { barcode: BarcodeContext { height: par(d, 0, 0), ..c.barcode }, ..c } }),
//@end
}
}
mod set_barcode_hri {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_barcode_hri.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { barcode: BarcodeContext { human_readable: (if num(par(d, 0, 0), 1) { HumanReadableInterface::Above } else if num(par(d, 0, 0), 2) { HumanReadableInterface::Below } else if num(par(d, 0, 0), 3) { HumanReadableInterface::Both } else { HumanReadableInterface::None }), ..c.barcode }, ..c } }),
//@end
}
}
mod set_barcode_width {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_barcode_width.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { barcode: BarcodeContext { width: (if par(d, 0, 2) < 2 { 2 } else if par(d, 0, 2) > 6 { c.barcode.width } else { par(d, 0, 2) }), ..c.barcode }, ..c } }),
//@end
}
}
// ---------------------------------------------------------------- 2D symbologies (C06)
mod aztec_set_correction_level {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/aztec_set_correction_level.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { aztec_error_correction: par(d, 0, 5), ..c.code2d }, ..c } }),
//@end
}
}
mod aztec_set_function_and_layers {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/aztec_set_function_and_layers.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { aztec_mode: (if num(par(d, 0, 0), 1) { 1 } else { 0 }), aztec_layers: (if par(d, 1, 0) < 33 { par(d, 1, 0) } else { 0 }), ..c.code2d }, ..c } }),
//@end
}
}
mod aztec_set_size {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/aztec_set_size.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; if 2 <= par(d, 0, 1) <= 16 { Context { code2d: Code2DContext { aztec_size: par(d, 0, 1), ..c.code2d }, ..c } } else { c } }),
//@end
}
}
mod composite_set_hri {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/composite_set_hri.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { composite_font: font_of(par(d, 0, 0)), ..c.code2d }, ..c } }),
//@end
}
}
mod composite_set_max_width {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { composite_max_width: (par(d, 0, 0) + 256 * par(d, 1, 0)) as u32, ..c.code2d }, ..c } }),
//@end
}
}
mod composite_set_width {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/composite_set_width.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { composite_width: par(d, 0, 1), ..c.code2d }, ..c } }),
//@end
}
}
mod datamatrix_set_options {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; if num(par(d, 0, 0), 0) || num(par(d, 0, 0), 1) { Context { code2d: Code2DContext { 
            datamatrix_type: (if num(par(d, 0, 0), 1) { 1 } else { 0 }), datamatrix_columns: par(d, 1, 0),
            datamatrix_rows: par(d, 2, 0), ..c.code2d }, ..c } } else { c } }),
//@end
}
}
mod datamatrix_set_width {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { datamatrix_width: par(d, 0, 1), ..c.code2d }, ..c } }),
//@end
}
}
mod gs1_set_max_width {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/gs1_set_max_width.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { gs1_databar_max_width: (par(d, 0, 0) + 256 * par(d, 1, 0)) as u32, ..c.code2d }, ..c } }),
//@end
}
}
mod gs1_set_width {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/gs1_set_width.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { gs1_databar_width: par(d, 0, 1), ..c.code2d }, ..c } }),
//@end
}
}
mod maxi_set_mode {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; if 50 <= par(d, 0, 50) <= 54 { Context { code2d: Code2DContext { maxicode_mode: (par(d, 0, 50) - 48) as u8, ..c.code2d }, ..c } } else { c } }),
//@end
}
}
mod pdf417_set_column_count {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/pdf417_set_column_count.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { pdf417_columns: par(d, 0, 0), ..c.code2d }, ..c } }),
//@end
}
}
mod pdf417_set_row_count {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/pdf417_set_row_count.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { pdf417_rows: par(d, 0, 0), ..c.code2d }, ..c } }),
//@end
}
}
mod pdf417_set_width {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/pdf417_set_width.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { pdf417_width: par(d, 0, 0), ..c.code2d }, ..c } }),
//@end
}
}
mod pdf417_set_options {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/pdf417_set_options.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { pdf417_is_truncated: par(d, 0, 0) != 0, ..c.code2d }, ..c } }),
//@end
}
}
mod qr_set_correction_level {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { qr_error_correction: (if num(par(d, 0, 48), 1) { QrErrorCorrection::M } else if num(par(d, 0, 48), 2) { QrErrorCorrection::Q } else if num(par(d, 0, 48), 3) { QrErrorCorrection::H } else { QrErrorCorrection::L }), ..c.code2d }, ..c } }),
//@end
}
}
mod qr_set_model {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/qr_set_model.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { qr_model: (if par(d, 0, 49) == 50 { QrModel::Model2 } else if par(d, 0, 49) == 51 { QrModel::Micro } else { QrModel::Model1 }), ..c.code2d }, ..c } }),
//@end
}
}
mod qr_set_size {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/qr_set_size.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); let d = command.data@; Context { code2d: Code2DContext { qr_size: par(d, 0, 1), ..c.code2d }, ..c } }),
//@end
}
}
mod aztec_store {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/aztec_store.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == *old(context),
//@end
}
}
mod composite_store {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/composite_store.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == *old(context),
//@end
}
}
mod datamatrix_store {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/datamatrix_store.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == *old(context),
//@end
}
}
mod gs1_store {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/gs1_store.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == *old(context),
//@end
}
}
mod maxi_store {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/maxi_store.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == *old(context),
//@end
}
}
mod pdf417_store {
use super::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == *old(context),
//@end
}
}
// ---------------------------------------------------------------- motion units and positions (C07)
pub assume_specification [u32::saturating_div] (a: u32, b: u32) -> (r: u32)
    requires b != 0
    ensures r == a / b;
pub assume_specification [i16::saturating_div] (a: i16, b: i16) -> (r: i16)
    requires b > 0
    ensures r == steps(a as int, b as int);
/// n units of d dots, towards zero
pub open spec fn steps(n: int, d: int) -> int { if n < 0 { -((-n) / d) } else { n / d } }
proof fn lemma_steps(n: int, d: int)
    requires d >= 1
    ensures n >= 0 ==> 0 <= steps(n, d) <= n, n < 0 ==> n <= steps(n, d) <= 0
{
    if n >= 0 { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, d); vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(n, 1, d); }
    else { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(-n, d); vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(-n, 1, d); }
}
pub open spec fn unit_of(dpi: u16, n: u8) -> u8 {
    let q = dpi as int / n as int;
    if q < 1 { 1 } else if q > 255 { 255 } else { q as u8 }
}
pub open spec fn fits30(a: RenderArea) -> bool { a.x < 0x4000_0000 && a.y < 0x4000_0000 && a.w < 0x4000_0000 && a.h < 0x4000_0000 }
pub open spec fn in_range(c: Context) -> bool {
    fits30(c.graphics.render_area) && fits30(c.page_mode.render_area) && fits30(c.page_mode.page_area) && c.graphics.h_motion_unit >= 1 && c.graphics.v_motion_unit >= 1
}
pub open spec fn less(a: int, b: int) -> int { if a > b { a - b } else { 0 } }
/// the print area with its position elsewhere
pub open spec fn page_at(p: PageModeContext, x: int, y: int) -> PageModeContext {
    PageModeContext { render_area: RenderArea { x: x as u32, y: y as u32, ..p.render_area }, ..p }
}
pub open spec fn std_at(c: Context, x: int, y: int) -> Context {
    Context { graphics: GraphicsContext { render_area: RenderArea { x: x as u32, y: y as u32, ..c.graphics.render_area }, ..c.graphics }, ..c }
}
pub open spec fn page_x(p: PageModeContext, d: int) -> PageModeContext {
    match p.direction {
        PrintDirection::TopLeft2Right => page_at(p, p.page_area.x + d, p.render_area.y as int),
        PrintDirection::BottomLeft2Top => page_at(p, p.render_area.x as int, p.page_area.y + d),
        PrintDirection::BottomRight2Left => page_at(p, less(p.page_area.x + p.render_area.w, d), p.render_area.y as int),
        PrintDirection::TopRight2Bottom => page_at(p, p.render_area.x as int, less(p.render_area.h as int, d)),
    }
}
pub open spec fn page_y(p: PageModeContext, d: int) -> PageModeContext {
    match p.direction {
        PrintDirection::TopLeft2Right => page_at(p, p.render_area.x as int, p.page_area.y + d),
        PrintDirection::BottomLeft2Top => page_at(p, p.page_area.x + less(p.render_area.w as int, d), p.render_area.y as int),
        PrintDirection::BottomRight2Left => page_at(p, p.render_area.x as int, p.page_area.y + less(p.render_area.h as int, d)),
        PrintDirection::TopRight2Bottom => page_at(p, p.page_area.x + d, p.render_area.y as int),
    }
}
pub open spec fn in_page(c: Context, p: PageModeContext) -> Context { Context { page_mode: p, ..c } }
//@use thermal_parser/src/context.rs
impl PageModeContext {
//@fn PageModeContext::set_x_absolute
//@spec
    requires fits30(old(self).render_area), fits30(old(self).page_area), x < 0x4000_0000
    ensures *final(self) == page_x(*old(self), x as int)
//@end
//@fn PageModeContext::set_y_absolute
//@spec
    requires fits30(old(self).render_area), fits30(old(self).page_area), y < 0x4000_0000
    ensures *final(self) == page_y(*old(self), y as int)
//@end
//@fn PageModeContext::offset_x_relative
//@spec
    requires fits30(old(self).render_area)
    ensures *final(self) == page_at(*old(self), less(old(self).render_area.x + x, 0), old(self).render_area.y as int)
//@end
//@fn PageModeContext::offset_y_relative
//@spec
    requires fits30(old(self).render_area)
    ensures *final(self) == page_at(*old(self), old(self).render_area.x as int, less(old(self).render_area.y + y, 0))
//@end
}
impl Context {
//@fn Context::set_x_absolute
//@spec
    requires in_range(*old(self)), x < 0x4000_0000
    ensures *final(self) == ({
        let c = *old(self);
        let d = x as int / c.graphics.h_motion_unit as int;
        if c.page_mode.enabled { in_page(c, page_x(c.page_mode, d)) } else { std_at(c, d, c.graphics.render_area.y as int) }
    })
//@at begin
    proof { lemma_steps(x as int, self.graphics.h_motion_unit as int); }
//@end
//@fn Context::set_y_absolute
//@spec
    requires in_range(*old(self)), y < 0x4000_0000
    ensures *final(self) == ({
        let c = *old(self);
        let d = y as int / c.graphics.v_motion_unit as int;
        if c.page_mode.enabled { in_page(c, page_y(c.page_mode, d)) } else { std_at(c, c.graphics.render_area.x as int, d) }
    })
//@at begin
    proof { lemma_steps(y as int, self.graphics.v_motion_unit as int); }
//@end
//@fn Context::offset_x_relative
//@spec
    requires in_range(*old(self))
    ensures *final(self) == ({
        let c = *old(self);
        let d = steps(x as int, c.graphics.h_motion_unit as int);
        if c.page_mode.enabled { in_page(c, page_at(c.page_mode, less(c.page_mode.render_area.x + d, 0), c.page_mode.render_area.y as int)) }
        else { std_at(c, less(c.graphics.render_area.x + d, 0), c.graphics.render_area.y as int) }
    })
//@at begin
    proof { lemma_steps(x as int, self.graphics.h_motion_unit as int); }
//@end
//@fn Context::offset_y_relative
//@spec
    requires in_range(*old(self))
    ensures *final(self) == ({
        let c = *old(self);
        let d = steps(y as int, c.graphics.v_motion_unit as int);
        if c.page_mode.enabled { in_page(c, page_at(c.page_mode, c.page_mode.render_area.x as int, less(c.page_mode.render_area.y + d, 0))) }
        else { std_at(c, c.graphics.render_area.x as int, less(c.graphics.render_area.y + d, 0)) }
    })
//@at begin
    proof { lemma_steps(y as int, self.graphics.v_motion_unit as int); }
//@end
}
mod set_motion_units {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/commands/set_motion_units.rs
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({
        let c = *old(context); let d = command.data@;
        if par(d, 0, 0) == 0 || par(d, 1, 0) == 0 { c }
        else { Context { graphics: GraphicsContext { h_motion_unit: unit_of(c.graphics.dots_per_inch, par(d, 0, 0)), v_motion_unit: unit_of(c.graphics.dots_per_inch, par(d, 1, 0)), ..c.graphics }, ..c } }
    }),
//@end
}
}
mod set_dot_density {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/set_dot_density.rs
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({
        let c = *old(context); let d = command.data@;
        if par(d, 0, 50) == 50 && par(d, 1, 50) == 50 { Context { graphics: GraphicsContext { dots_per_inch: 180, ..c.graphics }, ..c } }
        else if par(d, 0, 50) == 51 && par(d, 1, 50) == 51 { Context { graphics: GraphicsContext { dots_per_inch: 360, ..c.graphics }, ..c } }
        else { c }
    }),
//@end
}
}
mod set_horizontal_pos {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_horizontal_pos.rs
//@fn get_pos
//@ret r
//@spec
    ensures r == le16(data@, 0)
//@end
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    requires in_range(*old(context))
    ensures *final(context) == ({
        let c = *old(context);
        let d = le16(command.data@, 0) / c.graphics.h_motion_unit as int;
        if c.page_mode.enabled { in_page(c, page_x(c.page_mode, d)) } else { std_at(c, d, c.graphics.render_area.y as int) }
    }),
//@end
}
}
mod set_vertical_pos {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_vertical_pos.rs
//@fn get_pos
//@ret r
//@spec
    ensures r == le16(data@, 0)
//@end
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    requires in_range(*old(context))
    ensures *final(context) == ({
        let c = *old(context);
        let d = le16(command.data@, 0) / c.graphics.v_motion_unit as int;
        if c.page_mode.enabled { in_page(c, page_y(c.page_mode, d)) } else { c }
    }),
//@end
}
}
mod offset_vertical_pos {
use super::*;
pub struct Handler;
/// two's complement
pub open spec fn signed(n: int) -> int { if n >= 0x8000 { n - 0x1_0000 } else { n } }
//@use thermal_parser/src/commands/offset_vertical_pos.rs
//@fn get_pos
//@ret r
//@spec
    ensures r == signed(le16(data@, 0))
//@at begin
    proof { assert(forall |n: u16| #[trigger] (n as i16) == (if n >= 0x8000 { n - 0x1_0000 } else { n as int })) by (bit_vector); }
//@end
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    requires in_range(*old(context))
    ensures *final(context) == ({
        let c = *old(context);
        let d = steps(signed(le16(command.data@, 0)), c.graphics.v_motion_unit as int);
        if c.page_mode.enabled { in_page(c, page_at(c.page_mode, c.page_mode.render_area.x as int, less(c.page_mode.render_area.y + d, 0))) } else { c }
    }),
//@end
}
}

// ---------------------------------------------------------------- page mode (C10, C11)
pub assume_specification [i8::rem_euclid] (a: i8, b: i8) -> (r: i8)
    requires b > 0
    ensures r == (a as int) % (b as int);
pub open spec fn quarter(d: PrintDirection) -> int {
    match d { PrintDirection::TopLeft2Right => 0, PrintDirection::BottomLeft2Top => 1, PrintDirection::BottomRight2Left => 2, PrintDirection::TopRight2Bottom => 3 }
}
pub open spec fn turn(r: Rotation) -> int {
    match r { Rotation::R0 => 0, Rotation::R90 => 1, Rotation::R180 => 2, Rotation::R270 => 3 }
}
pub open spec fn most(a: int, b: int) -> int { if a > b { a } else { b } }
/// the page with width and height exchanged when the direction turns between horizontal and vertical
pub open spec fn turned(p: PageModeContext) -> RenderArea {
    if quarter(p.direction) % 2 != quarter(p.previous_direction) % 2 { RenderArea { w: p.page_area.h, h: p.page_area.w, ..p.page_area } } else { p.page_area }
}
/// where the print area is on that page
pub open spec fn placed(p: PageModeContext) -> RenderArea {
    let l = p.logical_area;
    let g = turned(p);
    match p.direction {
        PrintDirection::TopLeft2Right => l,
        PrintDirection::BottomLeft2Top => RenderArea { x: less(g.w as int, l.y + l.h) as u32, y: l.x, w: l.h, h: l.w },
        PrintDirection::BottomRight2Left => RenderArea { x: less(g.w as int, l.x + l.w) as u32, y: l.y, w: l.w, h: l.h },
        PrintDirection::TopRight2Bottom => RenderArea { x: less(g.w as int, l.y + l.h) as u32, y: less(g.h as int, l.x + l.w) as u32, w: l.h, h: l.w },
    }
}
//@use thermal_parser/src/context.rs
impl PageModeContext {
//@fn PageModeContext::should_dimension_swap
//@ret r
//@spec
    ensures r == (quarter(*direction) % 2 == 1)
//@end
//@fn PageModeContext::calculate_directional_rotation
//@ret r
//@spec
    ensures turn(r) == (quarter(*to) - quarter(*from)) % 4
//@end
//@fn PageModeContext::translate_top_left_to_right
//@spec
    requires fits30(old(self).logical_area), old(self).direction == PrintDirection::TopLeft2Right
    ensures *final(self) == (PageModeContext { render_area: old(self).logical_area, ..*old(self) })
//@end
//@fn PageModeContext::translate_bottom_right_to_left
//@spec
    requires fits30(old(self).logical_area)
    ensures *final(self) == ({ let p = *old(self); let l = p.logical_area; PageModeContext { render_area: RenderArea { x: less(p.page_area.w as int, l.x + l.w) as u32, y: l.y, w: l.w, h: l.h }, ..p } })
//@end
//@fn PageModeContext::translate_top_right_to_bottom
//@spec
    requires fits30(old(self).logical_area)
    ensures *final(self) == ({ let p = *old(self); let l = p.logical_area; PageModeContext { render_area: RenderArea { x: less(p.page_area.w as int, l.y + l.h) as u32, y: less(p.page_area.h as int, l.x + l.w) as u32, w: l.h, h: l.w }, ..p } })
//@end
//@fn PageModeContext::translate_bottom_left_to_top
//@spec
    requires fits30(old(self).logical_area)
    ensures *final(self) == ({ let p = *old(self); let l = p.logical_area; PageModeContext { render_area: RenderArea { x: less(p.page_area.w as int, l.y + l.h) as u32, y: l.x, w: l.h, h: l.w }, ..p } })
//@end
//@fn PageModeContext::apply_logical_area
//@ret r
//@spec
    requires fits30(old(self).logical_area), fits30(old(self).page_area)
    ensures
        ({
            let p = *old(self);
            let (g, a) = (turned(p), placed(p));
            // just enough to hold the print area
            let page = RenderArea { x: a.x, y: a.y, w: most(a.x + a.w, g.w as int) as u32, h: most(a.y + a.h, g.h as int) as u32 };
            &&& *final(self) == (PageModeContext { render_area: a, page_area: page, ..p })
            &&& turn(r.0) == (quarter(p.direction) - quarter(p.previous_direction)) % 4
            &&& r.1 == page.w && r.2 == page.h
        })
//@end
}
impl Context {
//@fn Context::set_page_area
//@spec
    requires old(self).graphics.h_motion_unit >= 1, old(self).graphics.v_motion_unit >= 1
    ensures *final(self) == ({
        let c = *old(self);
        let (h, v) = (c.graphics.h_motion_unit as int, c.graphics.v_motion_unit as int);
        in_page(c, PageModeContext { logical_area: RenderArea { x: (area.x as int / h) as u32, y: (area.y as int / v) as u32, w: (area.w as int / h) as u32, h: (area.h as int / v) as u32 }, ..c.page_mode })
    })
//@end
}
impl Clone for RenderArea {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
mod page_mode_print_area {
use super::*;
pub struct Handler;
//@use thermal_parser/src/commands/page_mode_print_area.rs
//@fn calculate_page_area
//@ret r
//@spec
    ensures r == ({ let d = command.data@; RenderArea { x: le16(d, 0) as u32, y: le16(d, 2) as u32, w: le16(d, 4) as u32, h: le16(d, 6) as u32 } })
//@end
impl Handler {
//@fn CommandHandler for Handler::apply_context
//@spec
    requires old(context).graphics.h_motion_unit >= 1, old(context).graphics.v_motion_unit >= 1
    ensures *final(context) == ({
        let c = *old(context); let d = command.data@;
        let (h, v) = (c.graphics.h_motion_unit as int, c.graphics.v_motion_unit as int);
        if c.page_mode.enabled {
            in_page(c, PageModeContext { logical_area: RenderArea { x: (le16(d, 0) / h) as u32, y: (le16(d, 2) / v) as u32, w: (le16(d, 4) / h) as u32, h: (le16(d, 6) / v) as u32 }, ..c.page_mode })
        } else { c }
    }),
//@end
}
}
mod page_mode_print_direction {
use super::*;
pub struct Handler;
pub open spec fn direction_of(n: u8) -> PrintDirection {
    if num(n, 1) { PrintDirection::BottomLeft2Top } else if num(n, 2) { PrintDirection::BottomRight2Left } else if num(n, 3) { PrintDirection::TopRight2Bottom } else { PrintDirection::TopLeft2Right }
}
impl Handler {
//@use thermal_parser/src/commands/page_mode_print_direction.rs
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({
        let c = *old(context); let d = command.data@;
        if c.page_mode.enabled { in_page(c, PageModeContext { direction: direction_of(par(d, 0, 0)), previous_direction: c.page_mode.direction, ..c.page_mode }) } else { c }
    }),
//@end
}
}
mod select_standard_mode {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/commands/select_standard_mode.rs
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == ({ let c = *old(context); in_page(c, PageModeContext { enabled: false, ..c.page_mode }) }),
//@end
}
}
mod unknown_gs_g {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/commands/unknown_gs_g.rs
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures *final(context) == *old(context)
//@end
}
}
}
fn main() {}
