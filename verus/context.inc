verus! {
// ---------------------------------------------------------------- the printer state
//@use thermal_parser/src/graphics.rs
//@item struct RGBA
//@item struct Code2D
/// HashMap<ImageRef, GraphicsCommand>, Vec<GraphicsCommand> and Codepage play no role here
#[verifier::external_body]
pub struct AnyStore { _x: u8 }
#[verifier::external_body]
pub struct AnyCodepage { _x: u8 }
//@use thermal_parser/src/context.rs
//@item enum TextJustify structural
//@item enum TextStrikethrough structural
//@item enum TextUnderline structural
//@item enum Font structural
//@item enum HumanReadableInterface structural
//@item enum QrModel structural
//@item enum QrErrorCorrection structural
//@item enum PrintDirection structural
//@item enum Rotation structural
//@item struct RenderArea
//@item struct TextContext with Codepage => AnyCodepage
//@item struct RenderColors
//@item struct GraphicsContext with HashMap<ImageRef, GraphicsCommand> => AnyStore and Vec<GraphicsCommand> => AnyStore
//@item struct BarcodeContext
//@item struct Code2DContext with graphics::Code2D => Code2D
//@item struct PageModeContext
//@item struct Context

// derived Clone copies
impl Clone for TextJustify {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Font {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for RenderArea {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for PrintDirection {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

/// the area that is printed in, with the current position
pub open spec fn area(c: Context) -> RenderArea {
    if c.page_mode.enabled { c.page_mode.render_area } else { c.graphics.render_area }
}
pub open spec fn base_x(c: Context) -> int { if c.page_mode.enabled { c.page_mode.page_area.x as int } else { 0 } }
pub open spec fn base_y(c: Context) -> int { if c.page_mode.enabled { c.page_mode.page_area.y as int } else { 0 } }
/// the same printer at another position
pub open spec fn moved(c: Context, x: int, y: int) -> Context {
    if c.page_mode.enabled {
        Context { page_mode: PageModeContext { render_area: RenderArea { x: x as u32, y: y as u32, ..c.page_mode.render_area }, ..c.page_mode }, ..c }
    } else {
        Context { graphics: GraphicsContext { render_area: RenderArea { x: x as u32, y: y as u32, ..c.graphics.render_area }, ..c.graphics }, ..c }
    }
}
/// only the position differs
pub open spec fn elsewhere(a: Context, b: Context) -> bool { b == moved(a, area(b).x as int, area(b).y as int) }
/// what is left of the line
pub open spec fn remaining(c: Context) -> int {
    let used = area(c).x - base_x(c);
    let u = if used < 0 { 0 } else { used };
    if u > area(c).w { 0 } else { area(c).w - u }
}
pub open spec fn justified(c: Context, w: int) -> int {
    if w > area(c).w { 0 }
    else if c.text.justify == TextJustify::Center { (area(c).w - w) / 2 }
    else if c.text.justify == TextJustify::Right { area(c).w - w }
    else { 0 }
}
pub open spec fn max2(a: int, b: int) -> int { if a > b { a } else { b } }

impl PageModeContext {
//@fn PageModeContext::set_x
//@spec
    requires old(self).page_area.x + x <= u32::MAX
    ensures *final(self) == (PageModeContext { render_area: RenderArea { x: (old(self).page_area.x + x) as u32, ..old(self).render_area }, ..*old(self) })
//@end
//@fn PageModeContext::set_y
//@spec
    requires old(self).page_area.y + y <= u32::MAX
    ensures *final(self) == (PageModeContext { render_area: RenderArea { y: (old(self).page_area.y + y) as u32, ..old(self).render_area }, ..*old(self) })
//@end
//@fn PageModeContext::offset_x
//@spec
    requires old(self).render_area.x + x <= u32::MAX
    ensures *final(self) == (PageModeContext { render_area: RenderArea { x: (old(self).render_area.x + x) as u32, ..old(self).render_area }, ..*old(self) })
//@end
//@fn PageModeContext::offset_y
//@spec
    requires old(self).render_area.y + y <= u32::MAX
    ensures *final(self) == (PageModeContext { render_area: RenderArea { y: (old(self).render_area.y + y) as u32, ..old(self).render_area }, ..*old(self) })
//@end
}
impl Context {
//@fn Context::get_base_x
//@ret r
//@spec
    ensures r == base_x(*self)
//@end
//@fn Context::get_base_y
//@ret r
//@spec
    ensures r == base_y(*self)
//@end
//@fn Context::get_x
//@ret r
//@spec
    ensures r == area(*self).x
//@end
//@fn Context::get_y
//@ret r
//@spec
    ensures r == area(*self).y
//@end
//@fn Context::reset_x
//@spec
    ensures *final(self) == moved(*old(self), base_x(*old(self)), area(*old(self)).y as int)
//@end
//@fn Context::reset_y
//@spec
    ensures *final(self) == moved(*old(self), area(*old(self)).x as int, base_y(*old(self)))
//@end
//@fn Context::offset_x
//@spec
    requires area(*old(self)).x + x <= u32::MAX
    ensures *final(self) == moved(*old(self), area(*old(self)).x + x, area(*old(self)).y as int)
//@end
//@fn Context::offset_y
//@spec
    requires area(*old(self)).y + y <= u32::MAX
    ensures *final(self) == moved(*old(self), area(*old(self)).x as int, area(*old(self)).y + y)
//@end
//@fn Context::set_x
//@spec
    requires base_x(*old(self)) + x <= u32::MAX
    ensures *final(self) == moved(*old(self), base_x(*old(self)) + x, area(*old(self)).y as int)
//@end
//@fn Context::set_y
//@spec
    requires base_y(*old(self)) + y <= u32::MAX
    ensures *final(self) == moved(*old(self), area(*old(self)).x as int, base_y(*old(self)) + y)
//@end
//@fn Context::feed
//@spec
    requires area(*old(self)).y + motion_units <= u32::MAX
    ensures *final(self) == moved(*old(self), base_x(*old(self)), area(*old(self)).y + motion_units)
//@end
//@fn Context::newline
//@spec
    requires area(*old(self)).y + old(self).text.line_spacing * count <= u32::MAX
    ensures *final(self) == moved(*old(self), base_x(*old(self)), area(*old(self)).y + old(self).text.line_spacing * count)
//@at begin
    proof { vstd::arithmetic::mul::lemma_mul_nonnegative(old(self).text.line_spacing as int, count as int); }
//@end
//@fn Context::reverse_newline
//@spec
    requires old(self).text.line_spacing * count <= u32::MAX
    ensures ({
        let c = *old(self);
        let up = max2(0, area(c).y - c.text.line_spacing * count);
        *final(self) == moved(c, base_x(c), max2(up, base_y(c)))
    })
//@at begin
    proof { vstd::arithmetic::mul::lemma_mul_nonnegative(old(self).text.line_spacing as int, count as int); }
//@end
//@fn Context::get_width
//@ret r
//@spec
    ensures r == area(*self).w
//@end
//@fn Context::get_available_width
//@ret r
//@spec
    ensures r == remaining(*self)
//@end
//@fn Context::calculate_justification
//@ret r
//@spec
    ensures r == justified(*self, width as int)
//@end
}
}
