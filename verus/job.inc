//@include command.inc
//@include printer.inc
verus! {
//@use thermal_parser/src/command.rs
//@item enum DeviceCommand
//@use thermal_parser/src/text.rs
//@item struct Dimensions
//@item struct TextSpan
pub type Devices = Option<Vec<DeviceCommand>>;

// ---------------------------------------------------------------- what the handlers yield
pub uninterp spec fn text_of(c: Command, p: Context) -> Option<TextSpan>;
pub uninterp spec fn graphics_of(c: Command, p: Context) -> Option<GraphicsCommand>;
pub uninterp spec fn applied(c: Command, p: Context) -> Context;
pub uninterp spec fn devices_of(c: Command, page_mode: bool, power_on: Option<Box<Context>>) -> Option<Seq<DeviceCommand>>;
pub uninterp spec fn described(c: Command, p: Context) -> String;
pub open spec fn asked(c: Command, p: Context) -> Option<Seq<DeviceCommand>> { devices_of(c, p.page_mode.enabled, p.default) }
pub open spec fn listed(d: Devices) -> Option<Seq<DeviceCommand>> {
    match d { Some(v) => Some(v@), None => None }
}
impl AnyHandler {
    #[verifier::external_body]
    pub fn get_text(&self, command: &Command, context: &Context) -> (r: Option<TextSpan>)
        ensures command.handler == *self ==> r == text_of(*command, *context)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_graphics(&self, command: &Command, context: &Context) -> (r: Option<GraphicsCommand>)
        ensures command.handler == *self ==> r == graphics_of(*command, *context)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn apply_context(&self, command: &Command, context: &mut Context)
        ensures command.handler == *self ==> *final(context) == applied(*command, *old(context))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_device_command(&self, command: &Command, context: &Context) -> (r: Devices)
        ensures command.handler == *self ==> listed(r) == asked(*command, *context)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn debug(&self, command: &Command, context: &Context) -> (r: String)
        ensures command.handler == *self ==> r == described(*command, *context)
    { unimplemented!() }
}

// ---------------------------------------------------------------- the moves of the position
pub uninterp spec fn newlined(c: Context, n: u32) -> Context;
pub uninterp spec fn lifted(c: Context, n: u32) -> Context;
pub uninterp spec fn fed(c: Context, n: u32) -> Context;
pub uninterp spec fn tabbed(c: Context, n: u8, k: u8) -> Context;
pub uninterp spec fn logical(c: PageModeContext) -> (PageModeContext, Rotation, u32, u32);
impl Context {
    #[verifier::external_body]
    pub fn newline(&mut self, count: u32) ensures *final(self) == newlined(*old(self), count) { unimplemented!() }
    #[verifier::external_body]
    pub fn reverse_newline(&mut self, count: u32) ensures *final(self) == lifted(*old(self), count) { unimplemented!() }
    #[verifier::external_body]
    pub fn feed(&mut self, n: u32) ensures *final(self) == fed(*old(self), n) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_tab_len(&mut self, n: u8, k: u8) ensures *final(self) == tabbed(*old(self), n, k) { unimplemented!() }
}
impl PageModeContext {
    #[verifier::external_body]
    pub fn apply_logical_area(&mut self) -> (r: (Rotation, u32, u32))
        ensures (*final(self), r.0, r.1, r.2) == logical(*old(self))
    { unimplemented!() }
}
impl Clone for PrintDirection {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for TextJustify {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub assume_specification [i16::unsigned_abs] (n: i16) -> (r: u16)
    ensures r == (if n < 0 { -n } else { n as int });
pub uninterp spec fn nothing() -> Vec<GraphicsCommand>;
/// Vec::clear
#[verifier::external_body]
fn verif_clear(v: &mut Vec<GraphicsCommand>) ensures *final(v) == nothing(), final(v)@.len() == 0 { v.clear() }
/// a += b
#[verifier::external_body]
fn verif_add(a: u32, b: u32) -> (r: u32) ensures r == (a + b) as u32 { a + b }

// ---------------------------------------------------------------- the output renderer
/// Box<dyn OutputRenderer<Output>>
#[verifier::external_body]
#[verifier::reject_recursive_types(Output)]
pub struct AnyRenderer<Output> { _x: core::marker::PhantomData<Output> }
pub enum Told {
    Device(DeviceCommand),
    Begin,
    PageBegin,
    PageArea(Rotation, u32, u32),
    PageEnd,
    Page,
    Errors,
    End,
}
/// the output renderer and the printer after a call
pub uninterp spec fn told<Output>(r: AnyRenderer<Output>, c: Context, t: Told) -> (AnyRenderer<Output>, Context);
pub uninterp spec fn errors_of<Output>(r: AnyRenderer<Output>) -> Seq<String>;
pub uninterp spec fn output_of<Output>(r: AnyRenderer<Output>, c: Context) -> Output;
impl<Output> AnyRenderer<Output> {
    #[verifier::external_body]
    pub fn device_command(&mut self, context: &mut Context, command: &DeviceCommand)
        ensures (*final(self), *final(context)) == told(*old(self), *old(context), Told::Device(*command))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn begin_render(&mut self, context: &mut Context)
        ensures (*final(self), *final(context)) == told(*old(self), *old(context), Told::Begin)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn page_begin(&mut self, context: &mut Context)
        ensures (*final(self), *final(context)) == told(*old(self), *old(context), Told::PageBegin)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn page_area_changed(&mut self, context: &mut Context, rotation: Rotation, width: u32, height: u32)
        ensures (*final(self), *final(context)) == told(*old(self), *old(context), Told::PageArea(rotation, width, height))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn page_end(&mut self, context: &mut Context)
        ensures (*final(self), *final(context)) == told(*old(self), *old(context), Told::PageEnd)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn render_page(&mut self, context: &mut Context)
        ensures (*final(self), *final(context)) == told(*old(self), *old(context), Told::Page)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_render_errors(&mut self) -> (r: Vec<String>)
        ensures r@ == errors_of(*old(self)), forall |c: Context| (*final(self), c) == #[trigger] told(*old(self), c, Told::Errors)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end_render(&mut self, context: &mut Context) -> (r: Output)
        ensures r == output_of(*old(self), *old(context)), (*final(self), *final(context)) == told(*old(self), *old(context), Told::End)
    { unimplemented!() }
}

// ---------------------------------------------------------------- the job
//@use thermal_renderer/src/renderer.rs
//@item struct DebugProfile
//@item enum RenderErrorKind
use RenderErrorKind::ChildRenderError;
//@item struct RenderError public
#[verifier::reject_recursive_types(Output)]
//@item struct Renderer public with <'a, Output> => <Output> and &'a mut Box<dyn OutputRenderer<Output>> => AnyRenderer<Output>

/// a job under way
#[verifier::reject_recursive_types(Output)]
pub ghost struct Job<Output> {
    pub renderer: AnyRenderer<Output>,
    pub output: Seq<Output>,
    pub errors: Seq<RenderError>,
    pub pending: Seq<TextSpan>,
    pub printer: Context,
}
pub open spec fn job<Output>(r: Renderer<Output>) -> Job<Output> {
    Job { renderer: r.renderer, output: r.output_buffer@, errors: r.error_buffer@, pending: r.span_buffer@, printer: r.context }
}
pub uninterp spec fn text_printed<Output>(j: Job<Output>) -> Job<Output>;
pub uninterp spec fn image_printed<Output>(j: Job<Output>, i: Image) -> Job<Output>;
pub uninterp spec fn barcode_printed<Output>(j: Job<Output>, b: AnyBarcode) -> Job<Output>;
pub uninterp spec fn code2d_printed<Output>(j: Job<Output>, b: AnyCode2D) -> Job<Output>;

pub open spec fn at<Output>(j: Job<Output>, p: Context) -> Job<Output> { Job { printer: p, ..j } }
pub open spec fn tell<Output>(j: Job<Output>, t: Told) -> Job<Output> {
    let (r, c) = told(j.renderer, j.printer, t);
    Job { renderer: r, printer: c, ..j }
}
pub open spec fn failed<Output>(j: Job<Output>, kind: RenderErrorKind, what: String) -> Job<Output> {
    Job { errors: j.errors.push(RenderError { kind, description: what }), ..j }
}
#[verifier::opaque]
pub open spec fn failed_all<Output>(j: Job<Output>, s: Seq<String>) -> Job<Output>
    decreases s.len()
{
    if s.len() == 0 { j } else { failed(failed_all(j, s.drop_last()), RenderErrorKind::ChildRenderError, s.last()) }
}
pub open spec fn in_page<Output>(j: Job<Output>, on: bool) -> Job<Output> {
    at(j, Context { page_mode: PageModeContext { enabled: on, ..j.printer.page_mode }, ..j.printer })
}
pub open spec fn area_applied<Output>(j: Job<Output>) -> Job<Output> {
    let (p, r, w, h) = logical(j.printer.page_mode);
    tell(at(j, Context { page_mode: p, ..j.printer }), Told::PageArea(r, w, h))
}
/// what a device command does
pub open spec fn device_effect<Output>(j0: Job<Output>, d: DeviceCommand) -> Job<Output> {
    let j = tell(j0, Told::Device(d));
    let p = j.printer;
    match d {
        DeviceCommand::SetTextWidth(w) => at(j, Context { text: TextContext { width_mult: w, ..p.text }, ..p }),
        DeviceCommand::SetTextHeight(h) => at(j, Context { text: TextContext { height_mult: h, ..p.text }, ..p }),
        DeviceCommand::Justify(s) => at(j, Context { text: TextContext { justify: s, ..p.text }, ..p }),
        DeviceCommand::BeginPrint => tell(at(j, newlined(p, 2)), Told::Begin),
        DeviceCommand::EndPrint => {
            let k = failed_all(tell(j, Told::Errors), errors_of(j.renderer));
            Job { output: k.output.push(output_of(k.renderer, k.printer)), ..tell(k, Told::End) }
        },
        DeviceCommand::FeedLine(n) => at(j, if n < 0 { lifted(p, (-n) as u32) } else { newlined(p, n as u32) }),
        DeviceCommand::Feed(n) => at(j, fed(p, n as u32)),
        DeviceCommand::FullCut => at(j, newlined(p, 2)),
        DeviceCommand::PartialCut => at(j, newlined(p, 2)),
        DeviceCommand::BeginPageMode => tell(in_page(j, true), Told::PageBegin),
        DeviceCommand::EndPageMode => in_page(tell(j, Told::PageEnd), false),
        DeviceCommand::PrintPageMode => {
            let k = tell(j, Told::Page);
            let (g, a) = (k.printer.graphics, k.printer.graphics.render_area);
            at(k, Context { graphics: GraphicsContext { render_area: RenderArea { x: 0, y: (a.y + k.printer.page_mode.page_area.h) as u32, ..a }, ..g }, ..k.printer })
        },
        DeviceCommand::ChangePageArea => area_applied(at(j, Context { page_mode: PageModeContext { previous_direction: p.page_mode.direction, ..p.page_mode }, ..p })),
        DeviceCommand::ChangePageModeDirection => area_applied(j),
        DeviceCommand::ChangeTabs(n, k) => at(j, tabbed(p, n, k)),
        DeviceCommand::ClearBufferGraphics => at(j, Context { graphics: GraphicsContext { buffer_graphics: nothing(), ..p.graphics }, ..p }),
        _ => j,
    }
}
#[verifier::opaque]
pub open spec fn all_done<Output>(j: Job<Output>, ds: Seq<DeviceCommand>) -> Job<Output>
    decreases ds.len()
{
    if ds.len() == 0 { j } else { device_done(all_done(j, ds.drop_last()), ds.last()) }
}
/// a device command, as one step
#[verifier::opaque]
pub open spec fn device_done<Output>(j: Job<Output>, d: DeviceCommand) -> Job<Output> { device_effect(j, d) }
proof fn one_device<Output>(j: Job<Output>, d: DeviceCommand)
    ensures device_done(j, d) == device_effect(j, d)
{ reveal(device_done); }
pub open spec fn devices_done<Output>(j: Job<Output>, ds: Option<Seq<DeviceCommand>>) -> Job<Output> {
    match ds { Some(s) => all_done(j, s), None => j }
}
pub open spec fn drawn<Output>(j: Job<Output>, g: Option<GraphicsCommand>) -> Job<Output> {
    match g {
        Some(GraphicsCommand::Error(e)) => failed(j, RenderErrorKind::GraphicsError, e),
        Some(GraphicsCommand::Code2D(c)) => code2d_printed(j, c),
        Some(GraphicsCommand::Barcode(b)) => barcode_printed(j, b),
        Some(GraphicsCommand::Image(i)) => image_printed(j, i),
        _ => j,
    }
}
/// the commands before which the pending text is printed
pub open spec fn flushes(k: CommandType) -> bool {
    k == CommandType::Unknown || k == CommandType::Graphics || k == CommandType::Context || k == CommandType::ContextControl || k == CommandType::Control
}
/// what a command does once pending text is out
pub open spec fn carried_out<Output>(j: Job<Output>, c: Command) -> Job<Output> {
    match c.kind {
        CommandType::Unknown => failed(j, RenderErrorKind::UnknownCommand, described(c, j.printer)),
        CommandType::Text => match text_of(c, j.printer) { Some(t) => Job { pending: j.pending.push(t), ..j }, None => j },
        CommandType::Graphics => { let k = drawn(j, graphics_of(c, j.printer)); devices_done(k, asked(c, k.printer)) },
        CommandType::Context => at(j, applied(c, j.printer)),
        CommandType::ContextControl => { let p = applied(c, j.printer); devices_done(at(j, p), asked(c, p)) },
        CommandType::Control => devices_done(j, asked(c, j.printer)),
        CommandType::TextStyle => { let p = applied(c, j.printer); devices_done(at(j, p), asked(c, p)) },
        _ => j,
    }
}
pub open spec fn performed<Output>(j: Job<Output>, c: Command) -> Job<Output> {
    carried_out(if flushes(c.kind) { text_printed(j) } else { j }, c)
}

proof fn step_all<Output>(j: Job<Output>, ds: Seq<DeviceCommand>, i: int)
    ensures
        all_done(j, ds.subrange(0, 0)) == j,
        0 <= i < ds.len() ==> all_done(j, ds.subrange(0, i + 1)) == device_done(all_done(j, ds.subrange(0, i)), ds[i]),
        ds.subrange(0, ds.len() as int) == ds,
{
    reveal(all_done);
    assert(ds.subrange(0, ds.len() as int) =~= ds);
    if 0 <= i < ds.len() { assert(ds.subrange(0, i + 1).drop_last() =~= ds.subrange(0, i)); }
}
proof fn step_failed<Output>(j: Job<Output>, s: Seq<String>, i: int)
    ensures
        failed_all(j, s.subrange(0, 0)) == j,
        0 <= i < s.len() ==> failed_all(j, s.subrange(0, i + 1)) == failed(failed_all(j, s.subrange(0, i)), RenderErrorKind::ChildRenderError, s[i]),
        s.subrange(0, s.len() as int) == s,
{
    reveal(failed_all);
    assert(s.subrange(0, s.len() as int) =~= s);
    if 0 <= i < s.len() { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
}
}
