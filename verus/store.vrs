//@meta rlimit 6
//@meta assume HashMap<ImageRef, GraphicsCommand> is a finite map on the equality of ImageRef (derived Eq and Hash): insert, remove, get and retain do what std documents
//@meta assume the decoders of graphics.rs are functions of their arguments (what they yield is proved in the unit pixels)
//@include command.inc
//@include printer.inc
verus! {
// what the decoders yield
pub uninterp spec fn layered(by_column: bool, w: u32, h: u32, n: u8, colors: RenderColors, flow: ImageFlow, data: Seq<u8>) -> GraphicsCommand;
pub uninterp spec fn single(by_column: bool, w: u32, h: u32, stretch: (u8, u8), color: RGBA, flow: ImageFlow, data: Seq<u8>) -> GraphicsCommand;
pub uninterp spec fn merged(layers: Seq<Image>) -> Option<Image>;
/// they yield pictures and errors, nothing else
pub open spec fn picture(g: GraphicsCommand) -> bool { g is Image || g is Error }

impl GraphicsCommand {
    #[verifier::external_body]
    pub fn image_from_column_bytes_single_color(width: u32, height: u32, stretch: (u8, u8), color: &RGBA, flow: ImageFlow, data: &[u8]) -> (r: GraphicsCommand)
        requires width <= 0xffff, height <= 0xffff, stretch.0 <= 2, stretch.1 <= 2
        ensures r == single(true, width, height, stretch, *color, flow, data@), picture(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn image_from_raster_bytes_single_color(width: u32, height: u32, stretch: (u8, u8), color: &RGBA, flow: ImageFlow, data: &[u8], process_as_bits: bool) -> (r: GraphicsCommand)
        requires width <= 0xffff, height <= 0xffff, stretch.0 <= 2, stretch.1 <= 2
        ensures process_as_bits ==> r == single(false, width, height, stretch, *color, flow, data@), picture(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn image_from_column_bytes_multi_color(width: u32, height: u32, stretch: (u8, u8), num_colors: u8, render_colors: &RenderColors, flow: ImageFlow, data: &[u8]) -> (r: GraphicsCommand)
        requires width <= 0xffff, height <= 0xffff, stretch.0 <= 2, stretch.1 <= 2
        ensures stretch == (1u8, 1u8) ==> r == layered(true, width, height, num_colors, *render_colors, flow, data@), picture(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn image_from_raster_bytes_multi_color(width: u32, height: u32, stretch: (u8, u8), num_colors: u8, render_colors: &RenderColors, flow: ImageFlow, data: &[u8], process_as_bits: bool) -> (r: GraphicsCommand)
        requires width <= 0xffff, height <= 0xffff, stretch.0 <= 2, stretch.1 <= 2
        ensures stretch == (1u8, 1u8) && process_as_bits ==> r == layered(false, width, height, num_colors, *render_colors, flow, data@), picture(r)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn merge_image_layers(layers: &Vec<Image>) -> (r: Result<Image, &'static str>)
    ensures match r { Ok(i) => merged(layers@) == Some(i), Err(_) => merged(layers@) is None }
{ unimplemented!() }

//@use thermal_parser/src/graphics.rs
impl ImageRef {
//@fn ImageRef::from_data
//@ret r
//@spec
    ensures match r {
        Some(k) => data.len() >= 2 && k == (ImageRef { kc1: data[0], kc2: data[1], storage }),
        None => data.len() < 2,
    }
//@end
}

/// the printer with other stored graphics
pub open spec fn same_but_kept(a: Context, b: Context) -> bool {
    b == (Context { graphics: GraphicsContext { stored_graphics: b.graphics.stored_graphics, ..a.graphics }, ..a })
}
/// the printer with another print buffer
pub open spec fn same_but_buffer(a: Context, b: Context) -> bool {
    b == (Context { graphics: GraphicsContext { buffer_graphics: b.graphics.buffer_graphics, ..a.graphics }, ..a })
}
pub open spec fn key(d: Seq<u8>, i: int, s: ImageRefStorage) -> ImageRef { ImageRef { kc1: d[i], kc2: d[i + 1], storage: s } }
pub open spec fn graphic(by_column: bool, d: Seq<u8>, c: RenderColors) -> GraphicsCommand {
    layered(by_column, le16(d, 4) as u32, le16(d, 6) as u32, d[3], c, ImageFlow::Block, d.skip(8))
}
/// defines the graphic of a storage
pub open spec fn defines(d: Seq<u8>, s: ImageRefStorage, by_column: bool, a: Context, b: Context) -> bool {
    if d.len() < 8 { b == a }
    else {
        same_but_kept(a, b)
            && b.graphics.stored_graphics@ == a.graphics.stored_graphics@.insert(key(d, 1, s), graphic(by_column, d, a.graphics.render_colors))
    }
}
pub open spec fn deletes(d: Seq<u8>, s: ImageRefStorage, a: Context, b: Context) -> bool {
    if d.len() < 2 { b == a }
    else {
        same_but_kept(a, b) && b.graphics.stored_graphics@ == a.graphics.stored_graphics@.remove(key(d, 0, s))
    }
}
pub open spec fn deletes_all(s: ImageRefStorage, a: Context, b: Context) -> bool {
    same_but_kept(a, b) && without(a.graphics.stored_graphics@, s, b.graphics.stored_graphics@)
}
pub open spec fn without(m: Map<ImageRef, GraphicsCommand>, s: ImageRefStorage, n: Map<ImageRef, GraphicsCommand>) -> bool {
    forall |k: ImageRef| #![trigger n.contains_key(k)] n.contains_key(k) == (m.contains_key(k) && k.storage != s) && (n.contains_key(k) ==> n[k] == m[k])
}
/// prints what is stored there
pub open spec fn prints(d: Seq<u8>, s: ImageRefStorage, c: Context, r: Option<GraphicsCommand>) -> bool {
    if d.len() >= 2 && c.graphics.stored_graphics@.contains_key(key(d, 0, s)) { r == Some(c.graphics.stored_graphics@[key(d, 0, s)]) }
    else { r is None }
}
pub open spec fn twice(n: u8) -> u8 { if n < 1 { 1 } else if n > 2 { 2 } else { n } }
/// what a store command appends
pub open spec fn appended(d: Seq<u8>, by_column: bool, c: Context) -> GraphicsCommand {
    single(by_column, le16(d, 4) as u32, le16(d, 6) as u32, (twice(d[1]), twice(d[2])), color_of(c.graphics.render_colors, d[3]), ImageFlow::Block, d.skip(8))
}
pub open spec fn appends(d: Seq<u8>, by_column: bool, a: Context, b: Context) -> bool {
    let (m, n) = (a.graphics.buffer_graphics@, b.graphics.buffer_graphics@);
    same_but_buffer(a, b) && n.len() == m.len() + 1 && n.drop_last() == m
        && (if d.len() < 8 { n.last() is Error } else { n.last() == appended(d, by_column, a) })
}
// ---------------------------------------------------------------- nv storage
mod define_nv_graphics_raster {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_raster.rs
//@fn CommandHandler for Handler::apply_context
//@sub println!(...) => ()
//@spec
    ensures defines(command.data@, ImageRefStorage::Disc, false, *old(context), *final(context)),
//@at begin
    proof { assert(forall |d: Seq<u8>| d.len() >= 8 ==> #[trigger] d.subrange(8, d.len() as int) =~= d.skip(8)); }
//@end
}
}
mod define_nv_graphics_column {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
//@fn CommandHandler for Handler::apply_context
//@sub println!(...) => ()
//@spec
    ensures defines(command.data@, ImageRefStorage::Disc, true, *old(context), *final(context)),
//@at begin
    proof { assert(forall |d: Seq<u8>| d.len() >= 8 ==> #[trigger] d.subrange(8, d.len() as int) =~= d.skip(8)); }
//@end
}
}
mod clear_nv_graphic {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/clear_nv_graphic.rs
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures deletes(command.data@, ImageRefStorage::Disc, *old(context), *final(context)),
//@end
}
}
mod clear_all_nv_graphics {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/clear_all_nv_graphics.rs
//@fn CommandHandler for Handler::apply_context
//@sub .retain(|$1, $3| $2) => .retain(|$1: &ImageRef| -> (b: bool) ensures b == ($2) { $2 })
//@spec
    ensures deletes_all(ImageRefStorage::Disc, *old(context), *final(context)),
//@end
}
}
mod print_nv_graphic {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/print_nv_graphic.rs
//@fn CommandHandler for Handler::get_graphics
//@ret r
//@spec
    ensures prints(command.data@, ImageRefStorage::Disc, *context, r),
//@end
}
}
// ---------------------------------------------------------------- download storage
mod define_download_graphics_raster {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/define_download_graphics_raster.rs
//@fn CommandHandler for Handler::apply_context
//@sub println!(...) => ()
//@spec
    ensures defines(command.data@, ImageRefStorage::Ram, false, *old(context), *final(context)),
//@at begin
    proof { assert(forall |d: Seq<u8>| d.len() >= 8 ==> #[trigger] d.subrange(8, d.len() as int) =~= d.skip(8)); }
//@end
}
}
mod define_download_graphics_column {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
//@fn CommandHandler for Handler::apply_context
//@sub println!(...) => ()
//@spec
    ensures defines(command.data@, ImageRefStorage::Ram, true, *old(context), *final(context)),
//@at begin
    proof { assert(forall |d: Seq<u8>| d.len() >= 8 ==> #[trigger] d.subrange(8, d.len() as int) =~= d.skip(8)); }
//@end
}
}
mod clear_download_graphic {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/clear_download_graphic.rs
//@fn CommandHandler for Handler::apply_context
//@spec
    ensures deletes(command.data@, ImageRefStorage::Ram, *old(context), *final(context)),
//@end
}
}
mod clear_all_download_graphics {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/clear_all_download_graphics.rs
//@fn CommandHandler for Handler::apply_context
//@sub .retain(|$1, $3| $2) => .retain(|$1: &ImageRef| -> (b: bool) ensures b == ($2) { $2 })
//@spec
    ensures deletes_all(ImageRefStorage::Ram, *old(context), *final(context)),
//@end
}
}
mod print_download_graphics {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/print_download_graphics.rs
//@fn CommandHandler for Handler::get_graphics
//@ret r
//@spec
    ensures prints(command.data@, ImageRefStorage::Ram, *context, r),
//@end
}
}
// ---------------------------------------------------------------- print buffer
mod store_buffer_graphics_raster {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
//@fn CommandHandler for Handler::apply_context
//@sub $str.to_owned() => verif_message()
//@spec
    ensures appends(command.data@, false, *old(context), *final(context)),
//@at begin
    proof {
        assert(forall |d: Seq<u8>| d.len() >= 8 ==> #[trigger] d.subrange(8, d.len() as int) =~= d.skip(8));
        assert(forall |s: Seq<GraphicsCommand>, g: GraphicsCommand| (#[trigger] s.push(g)).drop_last() =~= s);
    }
//@end
}
}
mod store_buffer_graphics_column {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
//@fn CommandHandler for Handler::apply_context
//@sub $str.to_owned() => verif_message()
//@spec
    ensures appends(command.data@, true, *old(context), *final(context)),
//@at begin
    proof {
        assert(forall |d: Seq<u8>| d.len() >= 8 ==> #[trigger] d.subrange(8, d.len() as int) =~= d.skip(8));
        assert(forall |s: Seq<GraphicsCommand>, g: GraphicsCommand| (#[trigger] s.push(g)).drop_last() =~= s);
    }
//@end
}
}

/// the pictures among the first n of the buffer, in order
pub open spec fn pictures(b: Seq<GraphicsCommand>, n: int) -> Seq<Image>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if let GraphicsCommand::Image(i) = b[n - 1] { pictures(b, n - 1).push(i) }
    else { pictures(b, n - 1) }
}
/// what printing the buffer yields
pub open spec fn prints_buffer(b: Seq<GraphicsCommand>, r: Option<GraphicsCommand>) -> bool {
    if exists |i: int| 0 <= i < b.len() && #[trigger] b[i] is Error {
        // the first one
        match r {
            Some(e) => e is Error && exists |i: int| 0 <= i < b.len() && b[i] == e && (forall |j: int| 0 <= j < i ==> !(#[trigger] b[j] is Error)),
            None => false,
        }
    } else if pictures(b, b.len() as int).len() == 0 { r is None }
    else {
        match merged(pictures(b, b.len() as int)) {
            Some(i) => r == Some(GraphicsCommand::Image(i)),
            None => r matches Some(g) && g is Error,
        }
    }
}
mod print_buffer_graphics {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/subcommands/gs_graphics/print_buffer_graphics.rs
//@fn CommandHandler for Handler::get_graphics
//@ret r
//@sub $str.to_string() => verif_message()
//@spec
    ensures prints_buffer(context.graphics.buffer_graphics@, r),
//@loop 1 it=it for g in context.graphics.buffer_graphics.iter()
                invariant
                    it.seq().len() == context.graphics.buffer_graphics@.len(), forall |i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == context.graphics.buffer_graphics@[i],
                    layers@ == pictures(context.graphics.buffer_graphics@, it.index() as int),
                    forall |j: int| 0 <= j < it.index() ==> !(#[trigger] context.graphics.buffer_graphics@[j] is Error),
//@end
}
}

// ---------------------------------------------------------------- what follows from it (C17, C18)
pub open spec fn shown(d: Seq<u8>, s: ImageRefStorage, c: Context) -> Option<GraphicsCommand> {
    if d.len() >= 2 && c.graphics.stored_graphics@.contains_key(key(d, 0, s)) { Some(c.graphics.stored_graphics@[key(d, 0, s)]) } else { None }
}
/// printing shows exactly what was last defined with these key codes in this storage
proof fn c17_last_definition(d: Seq<u8>, p: Seq<u8>, s: ImageRefStorage, by_column: bool, a: Context, b: Context, r: Option<GraphicsCommand>)
    requires d.len() >= 8, p.len() >= 2, p[0] == d[1], p[1] == d[2], defines(d, s, by_column, a, b), prints(p, s, b, r)
    ensures r == Some(graphic(by_column, d, a.graphics.render_colors))
{}
/// every other graphic, of either storage, stays as it was
proof fn c17_others_stay(d: Seq<u8>, p: Seq<u8>, s: ImageRefStorage, t: ImageRefStorage, by_column: bool, a: Context, b: Context)
    requires defines(d, s, by_column, a, b) || deletes(d, s, a, b), d.len() >= 8 || deletes(d, s, a, b),
        p.len() >= 2,
        defines(d, s, by_column, a, b) ==> t != s || d.len() < 8 || p[0] != d[1] || p[1] != d[2],
        deletes(d, s, a, b) ==> t != s || d.len() < 2 || p[0] != d[0] || p[1] != d[1],
    ensures shown(p, t, a) == shown(p, t, b)
{}
/// what is deleted is gone, and printing it prints nothing
proof fn c17_deleted(d: Seq<u8>, p: Seq<u8>, s: ImageRefStorage, a: Context, b: Context, r: Option<GraphicsCommand>)
    requires d.len() >= 2, p.len() >= 2, p[0] == d[0], p[1] == d[1], deletes(d, s, a, b), prints(p, s, b, r)
    ensures r is None
{}
/// deleting all of a storage deletes nothing of the other
proof fn c17_all_deleted(p: Seq<u8>, s: ImageRefStorage, t: ImageRefStorage, a: Context, b: Context)
    requires deletes_all(s, a, b)
    ensures t == s ==> shown(p, t, b) is None, t != s ==> shown(p, t, b) == shown(p, t, a)
{
    let k = key(p, 0, t);
    assert(b.graphics.stored_graphics@.contains_key(k) == (a.graphics.stored_graphics@.contains_key(k) && k.storage != s));
    if b.graphics.stored_graphics@.contains_key(k) { assert(b.graphics.stored_graphics@[k] == a.graphics.stored_graphics@[k]); }
}
/// what a store command appends comes last, everything before it stays in place
proof fn c18_appended_last(d: Seq<u8>, by_column: bool, a: Context, b: Context)
    requires appends(d, by_column, a, b)
    ensures ({
        let (m, n) = (a.graphics.buffer_graphics@, b.graphics.buffer_graphics@);
        pictures(n, n.len() as int) == (if let GraphicsCommand::Image(i) = n.last() { pictures(m, m.len() as int).push(i) } else { pictures(m, m.len() as int) })
    })
{
    let (m, n) = (a.graphics.buffer_graphics@, b.graphics.buffer_graphics@);
    assert(forall |i: int| 0 <= i < m.len() ==> #[trigger] m[i] == n.drop_last()[i]);
    pictures_prefix(m, n, m.len() as int);
}
proof fn pictures_prefix(m: Seq<GraphicsCommand>, n: Seq<GraphicsCommand>, k: int)
    requires forall |i: int| 0 <= i < k ==> m[i] == n[i], 
    ensures pictures(m, k) == pictures(n, k)
    decreases k
{
    if k > 0 { pictures_prefix(m, n, k - 1); }
}
}
fn main() {}
