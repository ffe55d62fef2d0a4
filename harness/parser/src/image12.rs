//! C12: raster images decode bit for bit.
use crate::decode::*;
use crate::util::*;
use thermal_parser::context::Context;
use thermal_parser::graphics::*;

crate::contracts! {
    exec fn c12_raster(nd) {
        let (w, h) = dims(nd);
        let d = amount(nd, raster_len(w, h));
        let col = RGBA { r: nd.u8(), g: nd.u8(), b: nd.u8(), a: 255 };
        let got = GraphicsCommand::image_from_raster_bytes_single_color(w, h, (1, 1), &col, ImageFlow::Block, &d, true);
        check(&got, &raster(w, h, rgb(&col), &d), "raster image");
    }
    exec fn c12_layer(nd) {
        let (w, h) = dims(nd);
        let mut d = vec![nd.u8()];
        d.extend(amount(nd, raster_len(w, h)));
        let c = colors(nd);
        let got = GraphicsCommand::image_from_raster_bytes_multi_color(w, h, (1, 1), 1, &c, ImageFlow::Block, &d, true);
        check(&got, &multi(w, h, 1, false, &c, &d), "raster image of one layer");
    }
    exec fn c12_commands(nd) {
        let mut ctx = Context::new();
        ctx.graphics.render_colors = colors(nd);
        let c = ctx.graphics.render_colors.clone();
        match nd.range(0, 1) {
            0 => {
                // a raster bit image; the parser takes exactly its payload, a shorter one only at the end
                let (bw, h) = (nd.range(0, 5), nd.range(0, 20));
                let n = raster_len(bw * 8, h);
                let d = if nd.range(0, 3) == 0 { let k = nd.range(0, n as u32) as usize; nd.bytes(k) } else { nd.bytes(n) };
                let mut b = vec![0x1d, b'v', b'0', nd.pick(&[0u8, 48]), bw as u8, 0, h as u8, 0];
                b.extend(&d);
                let v = parsed(&b);
                assert!(v.len() == 1);
                let g = v[0].handler.get_graphics(&v[0], &ctx).expect("a raster bit image prints something");
                check(&g, &raster(bw * 8, h, rgb(&c.color_1), &d), "raster bit image");
            }
            _ => {
                let (w, h) = dims(nd);
                let number = nd.range(48, 52) as u8;
                let d = amount(nd, raster_len(w, h));
                let mut p = vec![48, 1, 1, number, w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8];
                p.extend(&d);
                apply_stream(&envelope_graphics(112, &p), &mut ctx);
                assert!(ctx.graphics.buffer_graphics.len() == 1);
                check(&ctx.graphics.buffer_graphics[0], &raster(w, h, colour_no(number, &c), &d), "stored raster graphic");
            }
        }
    }
}
