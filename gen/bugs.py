"""Planted bugs: source of /verif/seeded (written by gen/seed.py)."""
PRE = r'''
#![allow(dead_code, unused_imports)]
use thermal_parser::command::*;
use thermal_parser::context::*;
use thermal_parser::graphics::*;
fn parse(b: &[u8]) -> Vec<Command> {
    let mut v = thermal_parser::parse_esc_pos(&b.to_vec());
    v.pop();
    v.remove(0);
    v
}
fn apply(b: &[u8], c: &mut Context) {
    for k in parse(b) {
        k.handler.apply_context(&k, c);
    }
}
fn gfx(b: &[u8], c: &mut Context) -> Vec<GraphicsCommand> {
    let mut v = vec![];
    for k in parse(b) {
        k.handler.apply_context(&k, c);
        v.extend(k.handler.get_graphics(&k, c));
    }
    v
}
fn env2d(sel: (u8, u8), d: &[u8]) -> Vec<u8> {
    let n = d.len() + 2;
    let mut v = vec![0x1d, b'(', b'k', (n % 256) as u8, (n / 256) as u8, sel.0, sel.1];
    v.extend_from_slice(d);
    v
}
fn envg(f: u8, d: &[u8]) -> Vec<u8> {
    let n = d.len() + 2;
    let mut v = vec![0x1d, b'(', b'L', (n % 256) as u8, (n / 256) as u8, 48, f];
    v.extend_from_slice(d);
    v
}
'''
P = "thermal_parser/src/"
R = "thermal_renderer/src/"
PRE_R = PRE + r'''
use std::cell::RefCell;
use std::rc::Rc;
use thermal_parser::text::TextSpan;
use thermal_renderer::image_renderer::thermal_image::ThermalImage;
use thermal_renderer::image_renderer::ImageRenderer;
use thermal_renderer::html_renderer::HtmlRenderer;
use thermal_renderer::renderer::*;
/// what reached the output: kind, x, y, w, h, text
type Ev = (&'static str, u32, u32, u32, u32, String);
struct Rec(Rc<RefCell<Vec<Ev>>>);
impl OutputRenderer<()> for Rec {
    fn set_debug_profile(&mut self, _p: DebugProfile) {}
    fn begin_render(&mut self, _c: &mut Context) {}
    fn page_begin(&mut self, _c: &mut Context) {}
    fn page_area_changed(&mut self, c: &mut Context, r: Rotation, w: u32, h: u32) {
        let a = &c.page_mode.render_area;
        self.0.borrow_mut().push(("area", a.x, a.y, a.w, a.h, format!("{:?} {} {}", r, w, h)));
    }
    fn render_page(&mut self, _c: &mut Context) {}
    fn render_graphics(&mut self, _c: &mut Context, g: &Vec<VectorGraphic>) {
        for r in g {
            let VectorGraphic::Rectangle(r) = r;
            self.0.borrow_mut().push(("rect", r.x, r.y, r.w, r.h, String::new()));
        }
    }
    fn render_image(&mut self, _c: &mut Context, i: &Image) {
        self.0.borrow_mut().push(("image", i.x, i.y, i.w, i.h, String::new()));
    }
    fn render_text(&mut self, _c: &mut Context, s: &Vec<TextSpan>, o: u32, _h: u32, _j: TextJustify) {
        for t in s {
            let d = t.dimensions.clone().unwrap();
            self.0.borrow_mut().push(("text", d.x + o, d.y, d.w, d.h, t.text.clone()));
        }
    }
    fn end_render(&mut self, c: &mut Context) {
        self.0.borrow_mut().push(("end", c.get_x(), c.get_y(), 0, 0, String::new()));
    }
}
fn job(b: &[u8]) -> Vec<Ev> {
    let v = Rc::new(RefCell::new(vec![]));
    let mut o: Box<dyn OutputRenderer<()>> = Box::new(Rec(v.clone()));
    Renderer::new(&mut o, DebugProfile::default()).render(&b.to_vec());
    let r = v.borrow().clone();
    r
}
fn shade(n: usize) -> RGBA {
    RGBA { r: (n % 251) as u8, g: (n / 251) as u8, b: 7, a: 255 }
}
fn canvas(w: u32, h: u32) -> ThermalImage {
    let mut t = ThermalImage::new(w);
    t.put_pixels(0, 0, w, h, (0..(w * h) as usize).map(shade).collect(), false, false);
    t
}
'''
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=prop, edits=[(k.get("root", P) + f, a, b) for f, a, b in edits], needs=needs, breaks=breaks, demo=k.pop("pre", PRE) + demo, **k))

bug("C01-esc-parameter", "C01", [("command.rs", """            DataType::Single => {
                if data_len >= 1 {""", """            DataType::Single => {
                //A prefix means that the parameter is missing
                if data_len >= 1 || byte == 0x1D {""")],
    "a one byte parameter whose value is 0x1D (29), e.g. a feed of 29 dots",
    "a parameter byte that looks like a command prefix is taken for the start of a new command",
    r'''
fn main() {
    let v = parse(&[0x1b, b'J', 29, b'!', b'x']);
    assert_eq!(v[0].data, vec![29]);
    assert_eq!(v[1].data, b"!x".to_vec());
}
''')
bug("C02-effects-size", "C02", [("commands/set_character_effects.rs", "(pl as u32 + ph as u32 * 256) + 2", "(pl as u32 + ph as u32 * 255) + 2")],
    "a character effects command whose announced size is 256 or more",
    "the last announced parameter bytes are printed as text",
    r'''
fn main() {
    let mut b = vec![0x1d, b'(', b'N', 2, 1, 48];
    b.extend(vec![49u8; 257]);
    b.push(b'x');
    let v = parse(&b);
    assert_eq!(v[0].data.len(), 260);
    assert_eq!(v[1].data, b"x".to_vec());
}
''')
bug("C02-raster-capacity", "C02", [("commands/raster_bit_image.rs", "self.capacity = self.width * self.height;", "self.capacity = (self.width as u16).wrapping_mul(self.height as u16) as u32;")],
    "a raster bit image of more than 65535 payload bytes",
    "the payload length wraps at 16 bits and the rest of the image is parsed as commands",
    r'''
fn main() {
    let mut b = vec![0x1d, b'v', b'0', 0, 0, 1, 1, 1];
    b.extend(vec![0u8; 256 * 257]);
    b.push(b'x');
    let v = parse(&b);
    assert_eq!(v[0].data.len(), 256 * 257);
    assert_eq!(v[1].data, b"x".to_vec());
}
''')
bug("C03-selector-digit", "C03", [("subcommands/mod.rs", "if *first_char != self.m {", "if *first_char != self.m | 48 {")],
    "a 2D code envelope whose symbol type byte is not one of 48 to 54 but equals one after setting bits 4 and 5 (e.g. 1 or 17)",
    "an unknown selector runs the QR functions instead of nothing",
    r'''
fn main() {
    let mut c = Context::new();
    let before = c.code2d.qr_size;
    apply(&env2d((1, 67), &[9]), &mut c);
    assert_eq!(c.code2d.qr_size, before);
    apply(&env2d((49, 67), &[9]), &mut c);
    assert_eq!(c.code2d.qr_size, 9);
}
''')
bug("C04-reused-parser", "C04", [("parser.rs", "        self.match_depth = 0;\n        self.command_buffer.clear();\n        self.command_matches.clear();", "        self.command_buffer.clear();")],
    "a stream that ends inside a command prefix, and a second stream given to the same parser",
    "the second stream is matched from the middle of the abandoned prefix",
    r'''
fn main() {
    let mut p = thermal_parser::parser::Parser::new(thermal_parser::command_sets::esc_pos::new());
    p.parse_bytes(&vec![b'a', 0x1b]);
    let v = p.parse_bytes(&b"@x".to_vec());
    let all: Vec<u8> = v.iter().flat_map(|k| { let (a, b) = k.handler.get_command_bytes(k); [a, b].concat() }).collect();
    assert_eq!(all, b"@x".to_vec());
    assert!(v.iter().all(|k| k.commands.as_slice() != [0x1b, b'@']));
}
''')
bug("C05-print-mode-bold", "C05", [("commands/set_print_mode.rs", "context.text.bold = bold;", "context.text.bold |= bold;")],
    "print mode without the emphasis bit after emphasis was turned on",
    "select print mode can no longer turn emphasis off",
    r'''
fn main() {
    let mut c = Context::new();
    apply(&[0x1b, b'E', 1, 0x1b, b'!', 0], &mut c);
    assert!(!c.text.bold);
    apply(&[0x1b, b'!', 8], &mut c);
    assert!(c.text.bold);
}
''')
bug("C05-upside-down", "C05", [("commands/set_upside_down.rs", "(n & 0x00000001) == 1", "n == 1 || n == 49")],
    "an odd parameter other than 1 and 49",
    "only bit 0 of the parameter counts, 3 must turn upside down printing on",
    r'''
fn main() {
    let mut c = Context::new();
    apply(&[0x1b, b'{', 3], &mut c);
    assert!(c.text.upside_down);
    apply(&[0x1b, b'{', 2], &mut c);
    assert!(!c.text.upside_down);
}
''')
bug("C06-aztec-layers", "C06", [("subcommands/gs_code2d/aztec_set_function_and_layers.rs", "if n2 > 0 && n2 < 33 {", "if n2 > 0 && n2 < 32 {")],
    "32 layers, the largest documented number",
    "32 layers are taken for automatic layers",
    r'''
fn main() {
    let mut c = Context::new();
    apply(&env2d((53, 66), &[48, 32]), &mut c);
    assert_eq!(c.code2d.aztec_layers, 32);
    apply(&env2d((53, 66), &[48, 33]), &mut c);
    assert_eq!(c.code2d.aztec_layers, 0);
}
''')
bug("C07-relative-i16", "C07", [("context.rs", """        let mut new_y = self.render_area.y as i32 + y as i32;
        if new_y < 0 {
            new_y = 0;
        }
        self.render_area.y = new_y as u32;
    }

    fn should""", """        let mut new_y = (self.render_area.y as i16).saturating_add(y);
        if new_y < 0 {
            new_y = 0;
        }
        self.render_area.y = new_y as u32;
    }

    fn should""")],
    "a relative vertical move in page mode from a position above 32767",
    "positions beyond 32767 are truncated by a relative move",
    r'''
fn main() {
    let mut c = Context::new();
    c.page_mode.enabled = true;
    apply(&[0x1d, b'$', 0x00, 0xa0, 0x1d, b'\\', 5, 0], &mut c);
    assert_eq!(c.get_y(), 0xa005);
}
''')
bug("C09-stored-symbol", "C09", [("context.rs", "            self.code2d = default.code2d.clone();\n", "            let symbol = self.code2d.symbol_storage.take();\n            self.code2d = Code2DContext { symbol_storage: symbol, ..default.code2d.clone() };\n")],
    "a stored QR symbol before initialize",
    "the stored symbol survives initialize",
    r'''
fn main() {
    let mut c = Context::new();
    apply(&env2d((49, 80), b"0hello"), &mut c);
    assert!(c.code2d.symbol_storage.is_some());
    apply(&[0x1b, b'@'], &mut c);
    assert!(c.code2d.symbol_storage.is_none());
}
''')
bug("C12-padding-bits", "C12", [("graphics.rs", "bytes.push(if *byte & 1 << (7 - n) != 0 { 255 } else { 0 });", "bytes.push(if *byte & 1 << (padding - 1 - n) != 0 { 255 } else { 0 });")],
    "a raster image whose width is not divisible by eight",
    "the last columns of each row are taken from the padding bits",
    r"""
fn main() {
    let c = RGBA { r: 1, g: 2, b: 3, a: 255 };
    let g = GraphicsCommand::image_from_raster_bytes_single_color(11, 1, (1, 1), &c, ImageFlow::Block, &[0, 0b10100000], true);
    let GraphicsCommand::Image(i) = g else { panic!() };
    let a: Vec<u8> = i.pixels.iter().map(|p| p.a).collect();
    assert_eq!(a, vec![0, 0, 0, 0, 0, 0, 0, 0, 255, 0, 255]);
}
""")
bug("C13-odd-width", "C13", [("graphics.rs", """    for y in 0..height {
        for x in 0..width {
            let src_index = y as usize * width as usize + x as usize;
            let dest_x = width - 1 - x; // Flip the x-coordinate
            let dest_index = y as usize * width as usize + dest_x as usize; // Calculate the destination index
            result[dest_index] = data[src_index];
        }
    }""", """    for y in 0..height {
        //Swap the left and the right half
        for x in 0..width / 2 {
            let src_index = y as usize * width as usize + x as usize;
            let dest_x = width - 1 - x; // Flip the x-coordinate
            let dest_index = y as usize * width as usize + dest_x as usize; // Calculate the destination index
            result[dest_index] = data[src_index];
            result[src_index] = data[dest_index];
        }
    }""")],
    "a column image with an odd number of columns that has a dot in its middle column",
    "the middle column of column images with an odd width is blank",
    r'''
fn main() {
    let c = RGBA { r: 1, g: 2, b: 3, a: 255 };
    let g = GraphicsCommand::image_from_column_bytes_single_color(3, 8, (1, 1), &c, ImageFlow::Inline, &[0x80, 0x40, 0x01]);
    let GraphicsCommand::Image(i) = g else { panic!() };
    for y in 0..8usize { for x in 0..3usize {
        let set = [0x80u8, 0x40, 1][x] >> (7 - y) & 1 == 1;
        assert_eq!(i.pixels[y * 3 + x].a, if set { 255 } else { 0 });
    } }
}
''')
bug("C14-tall-scale", "C14", [("graphics.rs", "            for dy in 0..scale_y {", "            for dy in 0..scale_y.min(scale_x + 1) {")],
    "a vertical factor that exceeds the horizontal one by at least two",
    "rows of an image that is stretched mostly vertically stay blank",
    r'''
fn main() {
    let (w, h, p) = scale_pixels(&[1, 2, 3, 4], 2, 2, 1, 4);
    assert_eq!((w, h), (2, 8));
    for y in 0..8 { for x in 0..2 { assert_eq!(p[y * 2 + x] as usize, 1 + y / 4 * 2 + x); } }
}
''')
bug("C15-fourth-layer", "C15", [("graphics.rs", "    for merge_img in layers.iter().skip(1) {", "    //The paper and three colors\n    for merge_img in layers.iter().skip(1).take(2) {")],
    "a multi colour graphic with more than three layers",
    "the fourth layer is not part of the picture",
    r'''
fn main() {
    let mut d = vec![48, 32, 32, 4, 8, 0, 1, 0];
    for n in 0..4u8 { d.extend([49 + n % 3, 0x80 >> n]); }
    let mut c = Context::new();
    let mut b = envg(67, &d);
    b.extend(envg(69, &[32, 32, 1, 1]));
    let g = gfx(&b, &mut c);
    let GraphicsCommand::Image(i) = &g[0] else { panic!() };
    for x in 0..4 { assert_eq!(i.pixels[x].a, 255, "pixel {}", x); }
}
''')
bug("C16-opaque-alpha", "C16", [("graphics.rs", "        if alpha == &255 {\n            self.r = color.r;", "        if alpha == &255 && color.a != 0 {\n            self.r = color.r;")],
    "blending with an explicit alpha of 255 a colour whose own alpha is 0 onto a pixel that is not opaque",
    "the pixel keeps its old alpha",
    r'''
fn main() {
    let mut p = RGBA { r: 9, g: 9, b: 9, a: 7 };
    p.blend_foreground_with_alpha(&RGBA { r: 1, g: 2, b: 3, a: 0 }, &255);
    assert_eq!((p.r, p.g, p.b, p.a), (1, 2, 3, 255));
}
''')
bug("C17-two-storages", "C17", [("subcommands/gs_graphics/clear_download_graphic.rs", "ImageRefStorage::Ram", "ImageRefStorage::Disc")],
    "a graphic of the same key codes in both storages, and one of them deleted",
    "deleting a download graphic deletes the non-volatile one",
    r'''
fn main() {
    let mut c = Context::new();
    let d = [48, 32, 33, 1, 8, 0, 1, 0, 49, 0xaa];
    let mut b = envg(67, &d);
    b.extend(envg(83, &d));
    b.extend(envg(82, &[32, 33]));
    apply(&b, &mut c);
    assert_eq!(gfx(&envg(69, &[32, 33, 1, 1]), &mut c).len(), 1);
    assert_eq!(gfx(&envg(85, &[32, 33, 1, 1]), &mut c).len(), 0);
}
''')
bug("C24-utf8-table", "C24", [("context.rs", "self.text.decoder.use_utf8_table = if self.text.code_table == 255 {", "self.text.decoder.use_utf8_table = if self.text.code_table == 255 && self.text.character_set == 0 {")],
    "the unicode table together with an international character set other than 0",
    "text is no longer decoded as UTF-8 once a character set was selected",
    r'''
fn main() {
    let mut c = Context::new();
    apply(&[0x1b, b'R', 2, 0x1b, b't', 255], &mut c);
    let v = parse("\u{e9}".as_bytes());
    assert_eq!(v[0].handler.get_text(&v[0], &c).unwrap().text, "\u{e9}");
}
''')
bug("C25-product-code", "C25", [("utils/barcodes/upce.rs", """                || prod[3] != 0
                || prod[4] < 5""", """                || prod[3] != 0
                || prod[4] < 4""")],
    "a twelve digit number whose manufacturer code does not end in 0 and whose product code is 00004",
    "a number that can not be shortened is accepted and reads back as another one",
    r'''
use thermal_parser::utils::barcodes::upce::UPCE;
fn main() {
    assert!(UPCE::new("012345000049".to_string()).is_err());
    assert!(UPCE::new("012345000058".to_string()).is_ok());
}
''')
bug("C26-hri-code-c", "C26", [("commands/barcode.rs", """data.replace("{A", "").replace("{B", "").replace("{C", "")""", """data.replace("{A", "").replace("{B", "")""")],
    "a CODE128 symbol that switches to code set C",
    "the readable text contains the code set switch",
    r'''
fn main() {
    let mut c = Context::new();
    let mut b = vec![0x1d, b'k', 73, 10];
    b.extend(b"{BNo{C1234");
    let g = gfx(&b, &mut c);
    let GraphicsCommand::Barcode(k) = &g[0] else { panic!() };
    assert_eq!(k.text.text, "No1234");
}
''')
bug("C26-ean13-length", "C26", [("commands/barcode.rs", "BarcodeType::Ean13 => length == 12 || length == 13,", "BarcodeType::Ean13 => length >= 12 && length <= 14,")],
    "EAN13 data of 14 digits",
    "data that is too long is printed as the symbol of its first digits",
    r'''
fn main() {
    let mut c = Context::new();
    let mut b = vec![0x1d, b'k', 67, 14];
    b.extend(b"12345678901234");
    assert!(matches!(gfx(&b, &mut c)[0], GraphicsCommand::Error(_)));
}
''')
bug("C27-last-version", "C27", [("subcommands/gs_code2d/qr_store.rs", "QrModel::Model2 => 40,\n            Micro => 4,", "QrModel::Model2 => 39,\n            Micro => 4,")],
    "model 2 data that only fits version 40 (2810 to 2953 bytes at level L)",
    "data that fits is dropped and the old symbol is printed",
    r'''
fn main() {
    let mut c = Context::new();
    apply(&env2d((49, 65), &[50, 0]), &mut c);
    let mut d = vec![48];
    d.extend(vec![b'a'; 2900]);
    apply(&env2d((49, 80), &d), &mut c);
    assert_eq!(c.code2d.symbol_storage.as_ref().map(|s| s.width), Some(177));
}
''')
bug("C28-large-decimal", "C28", [("thermal_file.rs", "let maybe_decimal = token.parse::<u8>();", "let maybe_decimal = token.parse::<u16>();"), ("thermal_file.rs", "parsed.push(decimal)", "parsed.push(decimal as u8)")],
    "an unquoted word that is a decimal number above 255",
    "the word is truncated to one byte instead of standing for itself",
    r"""
use thermal_parser::thermal_file::parse_str;
fn main() {
    assert_eq!(parse_str("300 255"), b"300\xff".to_vec());
}
""")
bug("C29-backslash-command", "C29", [("thermal_file.rs", """        "\\"\\\\\\\\\\"".to_string()""", """        "\\"\\\\\\"".to_string()""")],
    "a command whose opcode contains a backslash (GS \\)",
    "the opcode is written as an unterminated string and reads back as other bytes",
    r'''
use thermal_parser::thermal_file::*;
fn main() {
    let b = vec![0x1d, b'\\', 5, 0, b'x'];
    assert_eq!(parse_str(&cmds_to_thermal(&parse(&b))), b);
}
''')
bug("C31-truncated-buffer", "C31", [("subcommands/gs_graphics/mod.rs", "NOTHING", "NOTHING")], "", "", "fn main() {}")
BUGS.pop()
bug("C31-truncated-symbol", "C31", [("subcommands/gs_code2d/aztec_set_function_and_layers.rs", "let n2 = *command.data.get(1).unwrap_or(&0u8);", "let n2 = if command.data.is_empty() { 0 } else { command.data[1] };")],
    "an Aztec function command with one parameter instead of two",
    "a missing parameter panics",
    r'''
fn main() {
    let mut c = Context::new();
    apply(&env2d((53, 66), &[49]), &mut c);
    assert_eq!(c.code2d.aztec_mode, 1);
}
''')

RR = dict(root=R, crates=["thermal_parser", "thermal_renderer"], pre=PRE_R)
RP = dict(crates=["thermal_parser", "thermal_renderer"], pre=PRE_R)

bug("C08-tall-first", "C08", [("context.rs", "line_height = line_height.max(span.character_height);", "line_height = span.character_height.max(self.text.line_spacing as u32);")],
    "a line that ends by wrapping, with tall text followed by lower text in the same line",
    "the paper moves by the height of the last text of a line instead of the tallest",
    r'''
fn main() {
    let mut b = vec![0x1d, b'!', 0x03];
    b.extend(b"TALL ");
    b.extend([0x1d, b'!', 0x00]);
    b.extend(b"low ");
    b.extend(vec![b'x'; 45]);
    let v = job(&b);
    let t: Vec<&Ev> = v.iter().filter(|e| e.0 == "text").collect();
    assert_eq!(t[2].2 - t[0].2, 96);
}
''', **RP)
bug("C08-page-feed", "C08", [("context.rs", """        self.offset_y(motion_units);
        self.reset_x();
""", """        self.offset_y(motion_units);
        if !self.page_mode.enabled {
            self.reset_x();
        }
""")],
    "a feed (ESC J) in page mode after text in the same line",
    "a feed in page mode does not return to the left edge",
    r'''
fn main() {
    let mut b = vec![0x1b, b'L', 0x1b, b'W', 10, 0, 0, 0, 200, 0, 100, 0];
    b.extend(b"ab");
    b.extend([0x1b, b'J', 30]);
    b.extend(b"cd");
    b.extend([0x1b, b'J', 30]);
    let v = job(&b);
    let t: Vec<&Ev> = v.iter().filter(|e| e.0 == "text").collect();
    assert_eq!((t[0].1, t[1].1), (10, 10));
}
''', **RP)
bug("C10-area-unit", "C10", [("context.rs", """        adj_area.y = adj_area
            .y
            .saturating_div(self.graphics.v_motion_unit as u32);""", """        adj_area.y = adj_area
            .y
            .saturating_div(self.graphics.h_motion_unit as u32);""")],
    "different horizontal and vertical motion units and an area that does not start at the top",
    "the vertical origin of the area is measured in horizontal units",
    r'''
fn main() {
    let mut b = vec![0x1d, b'P', 203, 101, 0x1b, b'L'];
    b.extend([0x1b, b'W', 10, 0, 40, 0, 200, 0, 100, 0]);
    let v = job(&b);
    let a = v.iter().filter(|e| e.0 == "area").last().unwrap();
    assert_eq!((a.1, a.2, a.3, a.4), (10, 20, 200, 50));
}
''', **RP)
bug("C10-mirror-height", "C10", [("context.rs", "        r.y = p.h.saturating_sub(l.x + l.w);", "        r.y = p.h.saturating_sub(l.x + l.h);")],
    "an area that is not square, with the print direction from top right to bottom",
    "the area is mirrored with its height instead of its width",
    r'''
fn main() {
    let mut b = vec![0x1b, b'L', 0x1b, b'W', 0, 0, 0, 0, 144, 1, 144, 1, 0x1b, b'T', 3];
    b.extend([0x1b, b'W', 10, 0, 20, 0, 100, 0, 60, 0]);
    let v = job(&b);
    let a = v.iter().filter(|e| e.0 == "area").last().unwrap();
    assert_eq!((a.1, a.2, a.3, a.4), (400 - 80, 400 - 110, 60, 100));
}
''', **RP)
bug("C11-second-print", "C11", [("image_renderer/mod.rs", """        match rotation_to_previous {
            Rotation::R90 => self.page_image.rotate_90(),
            Rotation::R180 => self.page_image.rotate_180(),
            Rotation::R270 => self.page_image.rotate_270(),""", """        match rotation_to_previous {
            Rotation::R90 => self.page_image.rotate_90(),
            Rotation::R180 => self.page_image.rotate_180(),
            Rotation::R270 => self.page_image.rotate_90(),""")],
    "a page printed twice (ESC FF) while the print direction is from top right to bottom",
    "the page is not turned back to the print direction, so the second print shows it upside down",
    r'''
fn page(twice: bool) -> (u32, Vec<u8>) {
    let mut b = vec![0x1b, b'L', 0x1b, b'W', 0, 0, 0, 0, 100, 0, 100, 0, 0x1b, b'T', 3];
    b.extend([0x1b, b'W', 0, 0, 0, 0, 100, 0, 100, 0]);
    b.extend(b"abc");
    b.extend([0x1b, 0x0c]);
    if twice {
        b.extend([0x1b, 0x0c]);
    }
    let r = ImageRenderer::render(&b, None).output.pop().unwrap();
    (r.width, r.bytes)
}
fn main() {
    let (w, one) = page(false);
    let (_, two) = page(true);
    // the second page shows the same rows as the first
    let row = w as usize * 3;
    let first = one.iter().position(|p| *p == 0).unwrap() / row;
    let n = 60.min(one.len() / row - first);
    assert_eq!(one[first * row..(first + n) * row], two[(first + 100) * row..(first + 100 + n) * row]);
}
''', **RR)
bug("C11-area-turns", "C11", [("renderer.rs", """                        self.context.page_mode.previous_direction =
                            self.context.page_mode.direction.clone();
""", """                        if !self.context.page_mode.enabled {
                            self.context.page_mode.previous_direction =
                                self.context.page_mode.direction.clone();
                        }
""")],
    "a print area that is set after the print direction was changed in page mode",
    "setting the area turns the page once more",
    r'''
fn main() {
    let mut b = vec![0x1b, b'L', 0x1b, b'T', 1];
    b.extend([0x1b, b'W', 0, 0, 0, 0, 100, 0, 60, 0]);
    let v = job(&b);
    let a = v.iter().filter(|e| e.0 == "area").last().unwrap();
    assert!(a.5.starts_with("R0 "), "{}", a.5);
}
''', **RR)
bug("C18-clears-last", "C18", [("renderer.rs", "self.context.graphics.buffer_graphics.clear();", "self.context.graphics.buffer_graphics.pop();")],
    "two or more graphics stored before the buffer is printed, and another print afterwards",
    "printing the buffer removes only the last graphic from it",
    r'''
fn main() {
    let mut b = vec![];
    for _ in 0..3 {
        b.extend(envg(112, &[48, 1, 1, 49, 8, 0, 1, 0, 0xf0]));
    }
    b.extend(envg(50, &[]));
    b.extend(envg(50, &[]));
    let v = job(&b);
    assert_eq!(v.iter().filter(|e| e.0 == "image").count(), 1);
}
''', **RR)
bug("C19-odd-middle", "C19", [("image_renderer/thermal_image.rs", """        let mut rotated_image = vec![RGBA::blank(); (w * h) as usize];

        for y in 0..h {
            for x in 0..w {
                rotated_image[(h - 1 - y) * w + (w - 1 - x)] = self.bytes[y * w + x];
            }
        }
""", """        let mut rotated_image = self.bytes.clone();

        //Rows are exchanged in pairs
        for y in 0..h / 2 {
            for x in 0..w {
                rotated_image[(h - 1 - y) * w + (w - 1 - x)] = self.bytes[y * w + x];
                rotated_image[y * w + x] = self.bytes[(h - 1 - y) * w + (w - 1 - x)];
            }
        }
""")],
    "a half turn of a canvas with an odd number of rows",
    "the middle row is not turned",
    r'''
fn main() {
    let mut c = canvas(3, 5);
    let before = c.copy().2;
    c.rotate_180();
    let mut want = before.clone();
    want.reverse();
    assert!(c.copy().2 == want);
}
''', **RR)
bug("C20-locked-crop", "C20", [("image_renderer/thermal_image.rs", """            let max_height = if self.get_height() <= y {
                0
            } else {
                self.get_height() - y
            };
""", """            let max_height = self.get_height();
""")],
    "a locked canvas and a picture that starts below its top and is too tall",
    "a locked canvas grows when a picture reaches beyond its bottom",
    r'''
fn main() {
    let mut c = canvas(4, 6);
    c.auto_grow = false;
    c.put_pixels(1, 3, 2, 9, vec![shade(99); 18], false, false);
    assert_eq!(c.get_height(), 6);
}
''', **RR)
bug("C20-flip-odd", "C20", [("image_renderer/thermal_image.rs", "let bottom_row_start = (height as usize - i - 1) * row_size;", "let bottom_row_start = (height as usize - (height as usize % 2) - i - 1) * row_size;")],
    "an upside down picture with an odd number of rows",
    "the last row of the picture is left where it is",
    r'''
fn main() {
    let mut c = canvas(4, 5);
    let before = c.copy().2;
    c.flip_pixels(0, 0, 4, 5);
    let after = c.copy().2;
    for y in 0..5 {
        assert!(after[y * 4..y * 4 + 4] == before[(4 - y) * 4..(4 - y) * 4 + 4]);
    }
}
''', **RR)
bug("C21-odd-margin", "C21", [("image_renderer/thermal_image.rs", "let right = new_width - (left + old_width);", "let right = left;")],
    "a canvas that grows by an odd number of columns",
    "one column is missing on the right, every row is shifted against the one above",
    r'''
fn main() {
    let mut c = canvas(4, 3);
    c.expand_to_width(7);
    let (w, h, p) = c.copy();
    assert_eq!((w, h, p.len()), (7, 3, 21));
}
''', **RR)
bug("C22-exact-word", "C22", [("renderer.rs", "} else if word_width > max_width {", "} else if word_width >= max_width {")],
    "a word exactly as wide as the line that does not start at the left edge",
    "a word that fits an empty line is broken in two",
    r'''
fn main() {
    let c = Context::new();
    let n = c.get_width() / 12;
    let mut b = vec![0x1d, b'P', 203, 203];
    b.extend(b"ab ");
    // the width has to be a whole number of characters
    b.extend([0x1d, b'W']);
    let mut c2 = Context::new();
    apply(&[0x1b, b'L', 0x1b, b'W', 0, 0, 0, 0, 120, 0, 200, 0], &mut c2);
    let mut b = vec![0x1b, b'L', 0x1b, b'W', 0, 0, 0, 0, 120, 0, 200, 0];
    b.extend(b"ab ");
    b.extend(vec![b'x'; 10]);
    b.extend([0x1b, b'J', 1]);
    let v = job(&b);
    let t: Vec<&str> = v.iter().filter(|e| e.0 == "text").map(|e| e.5.as_str()).collect();
    assert_eq!(t, ["ab ", "xxxxxxxxxx"]);
    let _ = n;
}
''', **RR)
bug("C22-double-space", "C22", [("text.rs", """                current_word.push(c);

                if !current_word.is_empty() {
                    words""", """                if c != ' ' || !current_word.is_empty() || words.is_empty() {
                    current_word.push(c);
                    words""")],
    "two spaces in a row",
    "only the first of several spaces is printed",
    r'''
fn main() {
    let v = job(b"a  b");
    let t: String = v.iter().filter(|e| e.0 == "text").map(|e| e.5.clone()).collect();
    assert_eq!(t, "a  b");
}
''', **RP)
bug("C23-exact-inline", "C23", [("renderer.rs", "if image.w > self.context.get_available_width() {", "if image.w >= self.context.get_available_width() {")],
    "an inline image exactly as wide as the space that is left in the line",
    "an image that fits moves to the next line",
    r'''
fn main() {
    let c = Context::new();
    // bring the position to the right edge but 16 dots: 8 columns of 2 dots
    let x = c.get_width() - 16;
    let mut b = vec![0x1b, b'$', (x % 256) as u8, (x / 256) as u8];
    b.extend([0x1b, b'*', 0, 8, 0, 1, 2, 3, 4, 5, 6, 7, 8]);
    let v = job(&b);
    let i = v.iter().find(|e| e.0 == "image").unwrap();
    assert_eq!((i.1, i.3), (x, 16));
}
''', **RR)
bug("C23-page-bars", "C23", [("context.rs", """        if w > render_width {
            return 0;
        }
        match""", """        if w >= self.graphics.render_area.w {
            return 0;
        }
        let w = w.min(render_width);
        match""")],
    "a block as wide as the line, or justified text in a page area wider than the paper",
    "the justification of what is wider than the print area in page mode is taken from the paper",
    r'''
fn main() {
    let mut c = Context::new();
    apply(&[0x1b, b'a', 2], &mut c);
    c.text.justify = TextJustify::Right;
    c.page_mode.enabled = true;
    c.page_mode.render_area.w = 1000;
    assert_eq!(c.calculate_justification(700), 300);
}
''', **RP)
bug("C30-repeated-line", "C30", [("html_renderer/mod.rs", """        self.content.push(format!(
            "<p style='height: {}px; margin-top: {}px'>{}</p>",
            row.height,
            row.y.saturating_sub(self.last_y),
            row.content
        ));
        self.last_y""", """        let html = format!(
            "<p style='height: {}px; margin-top: {}px'>{}</p>",
            row.height,
            row.y.saturating_sub(self.last_y),
            row.content
        );
        //Rows are only added once
        if self.content.last() != Some(&html) {
            self.content.push(html);
        }
        self.last_y""")],
    "the same line printed twice at the same distance",
    "a repeated line appears only once in the html output",
    r'''
fn main() {
    let r = HtmlRenderer::render(&b"same\nsame\nsame\nsame\n".to_vec(), None).output.pop().unwrap();
    assert_eq!(r.content.matches("same").count(), 4);
}
''', **RR)
