//! C15: multi colour images combine all their layers.
use crate::decode::*;
use crate::nd::Nd;
use crate::util::*;
use thermal_parser::context::*;
use thermal_parser::graphics::*;

fn layered(nd: &mut Nd, w: u32, h: u32, by_column: bool) -> (u8, Vec<u8>) {
    let n = nd.range(0, 5) as u8;
    let len = if by_column { column_len(w, h) } else { raster_len(w, h) };
    let mut d = vec![];
    for _ in 0..n {
        d.push(if nd.range(0, 9) == 0 { nd.u8() } else { nd.range(48, 52) as u8 });
        d.extend(nd.bytes(len));
    }
    match nd.range(0, 9) {
        0 => { d.pop(); }
        1 => d.push(nd.u8()),
        2 => { let k = nd.range(0, d.len() as u32) as usize; d.truncate(k); }
        _ => {}
    }
    (n, d)
}
/// an image of coloured or transparent pixels
fn picture(nd: &mut Nd) -> (Image, Pic) {
    let (w, h) = (nd.range(0, 6), nd.range(0, 6));
    let mut pixels = vec![];
    let mut px = vec![];
    for _ in 0..w * h {
        let p = RGBA { r: nd.u8(), g: nd.u8(), b: nd.u8(), a: if nd.bool() { 255 } else { 0 } };
        pixels.push(p);
        px.push(if p.a == 255 { Some(rgb(&p)) } else { None });
    }
    (Image { pixels, x: 0, y: 0, w, h, flow: ImageFlow::Block, upside_down: false }, Pic { w, h, px })
}

crate::contracts! {
    exec fn c15_layers(nd) {
        let (w, h) = (nd.range(0, 20), nd.range(0, 20));
        let by_column = nd.bool();
        let (n, d) = layered(nd, w, h, by_column);
        let c = colors(nd);
        let got = if by_column {
            GraphicsCommand::image_from_column_bytes_multi_color(w, h, (1, 1), n, &c, ImageFlow::Block, &d)
        } else {
            GraphicsCommand::image_from_raster_bytes_multi_color(w, h, (1, 1), n, &c, ImageFlow::Block, &d, true)
        };
        check(&got, &multi(w, h, n, by_column, &c, &d), "layers");
    }
    exec fn c15_merge(nd) {
        let n = nd.range(1, 4);
        let mut images = vec![];
        let mut pics = vec![];
        for _ in 0..n {
            let (a, b) = picture(nd);
            images.push(a);
            pics.push(b);
        }
        let got = merge_image_layers(&images);
        let want = overlay(&pics);
        match got {
            Ok(i) => check(&GraphicsCommand::Image(i), &want, "merged"),
            Err(_) => assert!(want.is_none(), "layers that fit the first are merged"),
        }
    }
    exec fn c15_commands(nd) {
        // every define command, printed by its print command
        let mut ctx = Context::new();
        ctx.graphics.render_colors = colors(nd);
        let (w, h) = (nd.range(0, 20), nd.range(0, 20));
        let (define, print) = nd.pick(&[(67u8, 69u8), (68, 69), (83, 85), (84, 85)]);
        let by_column = define == 68 || define == 84;
        let (n, d) = layered(nd, w, h, by_column);
        let keys = [nd.u8(), nd.u8()];
        let mut p = vec![48, keys[0], keys[1], n, w as u8, 0, h as u8, 0];
        p.extend(&d);
        apply_stream(&envelope_graphics(define, &p), &mut ctx);
        let v = parsed(&envelope_graphics(print, &[keys[0], keys[1], 1, 1]));
        let g = v[0].handler.get_graphics(&v[0], &ctx).expect("what was defined is printed");
        check(&g, &multi(w, h, n, by_column, &ctx.graphics.render_colors, &d), "defined graphic");
    }
}
