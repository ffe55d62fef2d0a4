//! An output that records what the renderer asks it for.
use crate::renderer::*;
use std::mem::ManuallyDrop;
use thermal_parser::command::DeviceCommand;
use thermal_parser::context::*;
use thermal_parser::graphics::{Image, VectorGraphic};
use thermal_parser::text::TextSpan;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Rect {
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
}
pub const NO_RECT: Rect = Rect { x: 0, y: 0, w: 0, h: 0 };

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Seen {
    pub devices: u32,
    pub begins: u32,
    pub ends: u32,
    pub page_begins: u32,
    pub page_ends: u32,
    pub pages: u32,
    /// page mode while the page is printed, and the place of the paper
    pub page_at: (bool, u32, u32),
    pub areas: u32,
    pub area: (u8, u32, u32),
    pub images: u32,
    pub image: Rect,
    pub graphics: u32,
    pub rects: usize,
    pub rect: [Rect; 8],
    pub texts: u32,
}
pub const NOTHING: Seen = Seen {
    devices: 0,
    begins: 0,
    ends: 0,
    page_begins: 0,
    page_ends: 0,
    pages: 0,
    page_at: (false, 0, 0),
    areas: 0,
    area: (0, 0, 0),
    images: 0,
    image: NO_RECT,
    graphics: 0,
    rects: 0,
    rect: [NO_RECT; 8],
    texts: 0,
};
pub struct Eye {
    to: *mut Seen,
}
impl Eye {
    fn s(&mut self) -> &mut Seen {
        unsafe { &mut *self.to }
    }
}
impl OutputRenderer<u8> for Eye {
    fn set_debug_profile(&mut self, _: DebugProfile) {}
    fn begin_render(&mut self, _: &mut Context) {
        self.s().begins += 1
    }
    fn page_begin(&mut self, _: &mut Context) {
        self.s().page_begins += 1
    }
    fn page_area_changed(&mut self, _: &mut Context, r: Rotation, w: u32, h: u32) {
        let s = self.s();
        s.areas += 1;
        s.area = (
            match r {
                Rotation::R0 => 0,
                Rotation::R90 => 1,
                Rotation::R180 => 2,
                Rotation::R270 => 3,
            },
            w,
            h,
        );
    }
    fn page_end(&mut self, _: &mut Context) {
        self.s().page_ends += 1
    }
    fn render_page(&mut self, c: &mut Context) {
        let s = self.s();
        s.pages += 1;
        s.page_at = (c.page_mode.enabled, c.graphics.render_area.x, c.graphics.render_area.y);
    }
    fn render_graphics(&mut self, _: &mut Context, g: &Vec<VectorGraphic>) {
        let s = self.s();
        s.graphics += 1;
        s.rects = g.len();
        let mut i = 0;
        while i < g.len() && i < 8 {
            match &g[i] {
                VectorGraphic::Rectangle(r) => s.rect[i] = Rect { x: r.x, y: r.y, w: r.w, h: r.h },
            }
            i += 1;
        }
    }
    fn render_image(&mut self, _: &mut Context, i: &Image) {
        let s = self.s();
        s.images += 1;
        s.image = Rect { x: i.x, y: i.y, w: i.w, h: i.h };
    }
    fn render_text(&mut self, _: &mut Context, _: &Vec<TextSpan>, _: u32, _: u32, _: TextJustify) {
        self.s().texts += 1
    }
    fn device_command(&mut self, _: &mut Context, _: &DeviceCommand) {
        self.s().devices += 1
    }
    fn end_render(&mut self, _: &mut Context) -> u8 {
        self.s().ends += 1;
        7
    }
}
/// Runs a step of a renderer that is in the given state; -> the state after it and what was seen.
pub fn step(c: ManuallyDrop<Context>, f: impl FnOnce(&mut Renderer<u8>)) -> (ManuallyDrop<Context>, Seen) {
    let mut seen = NOTHING;
    let eye: Box<dyn OutputRenderer<u8>> = Box::new(Eye { to: &mut seen });
    let mut eye = ManuallyDrop::new(eye);
    let mut r = ManuallyDrop::new(Renderer::new(&mut eye, DebugProfile::default()));
    // the state is moved in and out as a whole (a swap would be a loop for the verifier)
    let at: *mut Context = r.verif_context();
    unsafe { std::ptr::write(at, std::ptr::read(&*c)) };
    f(&mut r);
    (ManuallyDrop::new(unsafe { std::ptr::read(at) }), seen)
}
