verus! {
// ---------------------------------------------------------------- graphics and where they are kept
//@use thermal_parser/src/graphics.rs
//@item struct RGBA
//@item struct Rectangle
//@item struct Line public
//@item struct Image
//@item enum ImageFlow structural
//@item enum ImageRefStorage structural
//@item struct ImageRef
#[verifier::external_body]
pub struct AnyCode2D { _x: u8 }
#[verifier::external_body]
pub struct AnyBarcode { _x: u8 }
//@item enum GraphicsCommand with Code2D(Code2D) => Code2D(AnyCode2D) and Barcode(Barcode) => Barcode(AnyBarcode)

/// HashMap<ImageRef, GraphicsCommand>
#[verifier::external_body]
pub struct Kept { _x: u8 }
impl View for Kept {
    type V = Map<ImageRef, GraphicsCommand>;
    uninterp spec fn view(&self) -> Map<ImageRef, GraphicsCommand>;
}
impl Kept {
    #[verifier::external_body]
    pub fn insert(&mut self, k: ImageRef, v: GraphicsCommand) -> (r: Option<GraphicsCommand>)
        ensures final(self)@ == old(self)@.insert(k, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &ImageRef) -> (r: Option<GraphicsCommand>)
        ensures final(self)@ == old(self)@.remove(*k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &ImageRef) -> (r: Option<&GraphicsCommand>)
        ensures match r { Some(g) => self@.contains_key(*k) && *g == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &ImageRef) -> (r: bool)
        ensures r == self@.contains_key(*k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<ImageRef, GraphicsCommand>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: Fn(&ImageRef) -> bool>(&mut self, f: F)
        requires forall |k: ImageRef| #[trigger] f.requires((&k,))
        ensures
            forall |k: ImageRef| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k] && f.ensures((&k,), true),
            forall |k: ImageRef| #[trigger] old(self)@.contains_key(k) && !final(self)@.contains_key(k) ==> f.ensures((&k,), false),
    { unimplemented!() }
}
impl Clone for GraphicsCommand {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Image {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn verif_message() -> (r: String) { unimplemented!() }

// ---------------------------------------------------------------- the printer state
#[verifier::external_body]
pub struct AnyCodepage { _x: u8 }
//@use thermal_parser/src/context.rs
//@item enum TextJustify structural
//@item enum TextStrikethrough structural
//@item enum TextUnderline structural
//@item enum Font structural
//@item enum HumanReadableInterface structural
//@item enum QrModel structural
//@item enum QrErrorCorrection structural
//@item enum PrintDirection structural
//@item enum Rotation structural
//@item struct RenderArea
//@item struct TextContext with Codepage => AnyCodepage
//@item struct RenderColors
//@item struct GraphicsContext with HashMap<ImageRef, GraphicsCommand> => Kept
//@item struct BarcodeContext
//@item struct Code2DContext with graphics::Code2D => AnyCode2D
//@item struct PageModeContext
//@item struct Context

pub open spec fn color_of(c: RenderColors, n: u8) -> RGBA {
    if n == 0 { c.paper_color } else if n == 2 || n == 50 { c.color_2 } else if n == 3 || n == 51 { c.color_3 } else { c.color_1 }
}
impl RenderColors {
//@fn RenderColors::color_for_number
//@ret r
//@spec
    ensures *r == color_of(*self, number)
//@end
}

//@use thermal_parser/src/util.rs
pub open spec fn le16(d: Seq<u8>, i: int) -> int {
    (if i < d.len() { d[i] as int } else { 0 }) + 256 * (if i + 1 < d.len() { d[i + 1] as int } else { 0 })
}
//@fn parse_u16
//@ret r
//@spec
    requires index < 0xffff
    ensures r == le16(bytes@, index as int)
//@at begin
    proof {
        assert(forall |l: u8, h: u8| #[trigger] ((h as u16) << 8u16 | l as u16) == l as u16 + 256 * h as u16) by (bit_vector);
    }
//@end

}
