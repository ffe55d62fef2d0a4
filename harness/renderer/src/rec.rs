//! An output that records what the renderer hands it, and where the printer then is.
use std::cell::RefCell;
use std::rc::Rc;
use thermal_parser::command::DeviceCommand;
use thermal_parser::context::*;
use thermal_parser::graphics::*;
use thermal_parser::text::TextSpan;
use thermal_renderer::renderer::*;

#[derive(Clone)]
pub struct At {
    pub page: bool,
    pub x: u32,
    pub y: u32,
    pub base_x: u32,
    pub base_y: u32,
    pub width: u32,
    pub paper_y: u32,
    pub paper_x: u32,
}
#[derive(Clone)]
pub enum What {
    Begin,
    PageBegin,
    PageEnd,
    Area { turn: u32, w: u32, h: u32, logical: [u32; 4], render: [u32; 4], page: [u32; 4], direction: u8 },
    Page,
    Graphics(Vec<[u32; 4]>),
    Image(Image),
    Text { spans: Vec<TextSpan>, offset: u32, height: u32, justify: u8 },
    Device(String),
    End,
}
#[derive(Clone)]
pub struct Ev {
    pub at: At,
    pub what: What,
}
pub struct Job {
    pub events: Vec<Ev>,
    pub outputs: usize,
    pub errors: usize,
    /// the printer state when the job ends
    pub end: Option<Context>,
}
impl Job {
    /// what is put on paper: text, images, graphics and pages
    pub fn marks(&self) -> Vec<&Ev> {
        self.events.iter().filter(|e| matches!(e.what, What::Text { .. } | What::Graphics(_) | What::Image(_) | What::Page)).collect()
    }
    pub fn end_at(&self) -> At {
        at(self.end.as_ref().expect("the job ended"))
    }
}
pub fn at(c: &Context) -> At {
    At {
        page: c.page_mode.enabled,
        x: c.get_x(),
        y: c.get_y(),
        base_x: c.get_base_x(),
        base_y: c.get_base_y(),
        width: c.get_width(),
        paper_x: c.graphics.render_area.x,
        paper_y: c.graphics.render_area.y,
    }
}
pub fn quarter(r: &Rotation) -> u32 {
    match r {
        Rotation::R0 => 0,
        Rotation::R90 => 1,
        Rotation::R180 => 2,
        Rotation::R270 => 3,
    }
}
pub fn justify_no(j: &TextJustify) -> u8 {
    match j {
        TextJustify::Left => 0,
        TextJustify::Center => 1,
        TextJustify::Right => 2,
    }
}
/// clockwise quarter turns that bring the direction to the standard one's place
pub fn direction_no(d: &PrintDirection) -> u8 {
    match d {
        PrintDirection::TopLeft2Right => 0,
        PrintDirection::BottomLeft2Top => 1,
        PrintDirection::BottomRight2Left => 2,
        PrintDirection::TopRight2Bottom => 3,
    }
}
fn area4(a: &RenderArea) -> [u32; 4] {
    [a.x, a.y, a.w, a.h]
}

struct Recorder {
    log: Rc<RefCell<Vec<Ev>>>,
    end: Rc<RefCell<Option<Context>>>,
}
impl Recorder {
    fn put(&self, c: &Context, what: What) {
        self.log.borrow_mut().push(Ev { at: at(c), what });
    }
}
impl OutputRenderer<()> for Recorder {
    fn set_debug_profile(&mut self, _: DebugProfile) {}
    fn begin_render(&mut self, c: &mut Context) {
        self.put(c, What::Begin)
    }
    fn page_begin(&mut self, c: &mut Context) {
        self.put(c, What::PageBegin)
    }
    fn page_area_changed(&mut self, c: &mut Context, r: Rotation, w: u32, h: u32) {
        let p = &c.page_mode;
        self.put(c, What::Area { turn: quarter(&r), w, h, logical: area4(&p.logical_area), render: area4(&p.render_area), page: area4(&p.page_area), direction: direction_no(&p.direction) })
    }
    fn page_end(&mut self, c: &mut Context) {
        self.put(c, What::PageEnd)
    }
    fn render_page(&mut self, c: &mut Context) {
        self.put(c, What::Page)
    }
    fn render_graphics(&mut self, c: &mut Context, g: &Vec<VectorGraphic>) {
        let v = g.iter().map(|VectorGraphic::Rectangle(r)| [r.x, r.y, r.w, r.h]).collect();
        self.put(c, What::Graphics(v))
    }
    fn render_image(&mut self, c: &mut Context, i: &Image) {
        self.put(c, What::Image(i.clone()))
    }
    fn render_text(&mut self, c: &mut Context, spans: &Vec<TextSpan>, offset: u32, height: u32, j: TextJustify) {
        self.put(c, What::Text { spans: spans.clone(), offset, height, justify: justify_no(&j) })
    }
    fn device_command(&mut self, c: &mut Context, d: &DeviceCommand) {
        self.put(c, What::Device(d.as_string()))
    }
    fn end_render(&mut self, c: &mut Context) {
        *self.end.borrow_mut() = Some(c.clone());
        self.put(c, What::End)
    }
}

/// Renders a byte stream.
pub fn job(bytes: &[u8]) -> Job {
    let log = Rc::new(RefCell::new(vec![]));
    let end = Rc::new(RefCell::new(None));
    let mut b: Box<dyn OutputRenderer<()>> = Box::new(Recorder { log: log.clone(), end: end.clone() });
    let mut r = Renderer::new(&mut b, DebugProfile::default());
    let o = r.render(&bytes.to_vec());
    let events = log.borrow().clone();
    let e = end.borrow().clone();
    Job { events, outputs: o.output.len(), errors: o.errors.len(), end: e }
}
/// the spans of a text event, as (text, x, y, w, h)
pub fn boxes(spans: &[TextSpan]) -> Vec<(String, u32, u32, u32, u32)> {
    spans.iter().map(|s| {
        let d = s.dimensions.as_ref().expect("printed text has a place");
        (s.text.clone(), d.x, d.y, d.w, d.h)
    }).collect()
}

use crate::nd::Nd;
/// ESC L, an area and a direction
pub fn page_setup(nd: &mut Nd) -> Vec<u8> {
    let mut v = vec![0x1b, b'L'];
    if nd.range(0, 9) > 0 {
        v.extend(area_command(nd, 400, 300));
    }
    if nd.bool() {
        v.extend([0x1b, b'T', nd.range(0, 4) as u8]);
    }
    v
}
pub fn area_command(nd: &mut Nd, mw: u32, mh: u32) -> Vec<u8> {
    let a = [nd.range(0, 60), nd.range(0, 60), nd.range(0, mw), nd.range(0, mh)];
    let mut v = vec![0x1b, b'W'];
    for n in a {
        v.extend([(n % 256) as u8, (n / 256) as u8]);
    }
    v
}
/// commands that leave the printer in some state that text and moves depend on
pub fn any_setup(nd: &mut Nd) -> Vec<u8> {
    let mut v = vec![];
    if nd.range(0, 2) == 0 {
        v.extend([0x1d, b'P', nd.range(0, 3) as u8, nd.range(0, 3) as u8]);
    }
    if nd.range(0, 2) == 0 {
        v.extend(page_setup(nd));
    }
    if nd.bool() {
        v.extend([0x1b, b'3', nd.u8()]);
    }
    if nd.bool() {
        v.extend([0x1b, b'a', nd.range(0, 2) as u8]);
    }
    if nd.bool() {
        v.extend([0x1d, b'!', nd.range(0, 2) as u8 * 16 + nd.range(0, 2) as u8]);
    }
    if nd.bool() {
        v.extend([0x1b, b'M', nd.range(0, 2) as u8]);
    }
    if nd.bool() {
        v.extend([0x1b, b'J', nd.range(0, 120) as u8]);
    }
    if nd.bool() {
        let x = nd.range(0, 640);
        v.extend([0x1b, b'$', (x % 256) as u8, (x / 256) as u8]);
    }
    v
}

use thermal_renderer::image_renderer::{ImageRenderer, ReceiptImage};
thread_local! {
    // loading the fonts takes longer than the job
    static PAPER: RefCell<Box<dyn OutputRenderer<ReceiptImage>>> = RefCell::new(Box::new(ImageRenderer::new()));
}
/// The pictures of a byte stream.
pub fn paper(bytes: &[u8]) -> Vec<ReceiptImage> {
    PAPER.with(|p| {
        let mut p = p.borrow_mut();
        let mut r = Renderer::new(&mut p, DebugProfile::default());
        r.render(&bytes.to_vec()).output
    })
}

use thermal_renderer::html_renderer::{HtmlRenderer, ReceiptHtml};
thread_local! {
    static HTML: RefCell<Box<dyn OutputRenderer<ReceiptHtml>>> = RefCell::new(Box::new(HtmlRenderer::new()));
}
/// The html documents of a byte stream.
pub fn html(bytes: &[u8]) -> Vec<String> {
    HTML.with(|p| {
        let mut p = p.borrow_mut();
        let mut r = Renderer::new(&mut p, DebugProfile::default());
        r.render(&bytes.to_vec()).output.into_iter().map(|o| o.content).collect()
    })
}
