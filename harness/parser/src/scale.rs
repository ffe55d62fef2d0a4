//! C14: scaled images repeat every pixel exactly.
use crate::decode::*;
use crate::util::*;
use thermal_parser::context::Context;
use thermal_parser::graphics::*;

crate::contracts! {
    exec fn c14_scale(nd) {
        let (w, h) = (nd.range(0, 9), nd.range(0, 9));
        let big = nd.range(0, 60) == 0;
        let (fx, fy) = if big { (nd.u8(), nd.u8()) } else { (nd.range(0, 5) as u8, nd.range(0, 5) as u8) };
        let d = nd.bytes((w * h) as usize);
        let (gw, gh, got) = scale_pixels(&d, w, h, fx, fy);
        let (fx, fy) = (fx.max(1) as u32, fy.max(1) as u32);
        assert!((gw, gh) == (w * fx, h * fy), "the size is multiplied by the factors");
        assert!(got.len() as u32 == gw * gh, "a pixel for every place");
        for y in 0..gh {
            for x in 0..gw {
                assert!(got[(y * gw + x) as usize] == d[((y / fy) * w + x / fx) as usize], "pixel ({}, {}) of {} x {} scaled by {} and {}", x, y, w, h, fx, fy);
            }
        }
    }
    exec fn c14_images(nd) {
        let (w, h) = (nd.range(0, 20), nd.range(0, 20));
        let s = (nd.range(0, 4) as u8, nd.range(0, 4) as u8);
        let col = RGBA { r: nd.u8(), g: nd.u8(), b: nd.u8(), a: 255 };
        let by_column = nd.bool();
        let (got, want) = if by_column {
            let d = amount(nd, column_len(w, h));
            (GraphicsCommand::image_from_column_bytes_single_color(w, h, s, &col, ImageFlow::Block, &d), column(w, h, rgb(&col), &d))
        } else {
            let d = amount(nd, raster_len(w, h));
            (GraphicsCommand::image_from_raster_bytes_single_color(w, h, s, &col, ImageFlow::Block, &d, true), raster(w, h, rgb(&col), &d))
        };
        check(&got, &want.map(|p| scaled(&p, s.0 as u32, s.1 as u32)), "scaled image");
    }
    exec fn c14_commands(nd) {
        let mut ctx = Context::new();
        let c = colors(nd);
        ctx.graphics.render_colors = c.clone();
        match nd.range(0, 2) {
            0 => {
                let m = nd.pick(&[0u8, 1, 32, 33]);
                let h = if m < 32 { 8 } else { 24 };
                let w = nd.range(0, 20);
                let d = nd.bytes(column_len(w, h));
                let mut b = vec![0x1b, b'*', m, w as u8, 0];
                b.extend(&d);
                let v = parsed(&b);
                let g = v[0].handler.get_graphics(&v[0], &ctx).expect("an image");
                let f = if m == 0 || m == 32 { (2, 3) } else { (1, 1) };
                check(&g, &column(w, h, rgb(&c.color_1), &d).map(|p| scaled(&p, f.0, f.1)), "bit image");
            }
            1 => {
                let m = nd.pick(&[0u8, 1, 2, 3, 48, 49, 50, 51]);
                let (bw, h) = (nd.range(0, 4), nd.range(0, 20));
                let d = nd.bytes((bw * h) as usize);
                let mut b = vec![0x1d, b'v', b'0', m, bw as u8, 0, h as u8, 0];
                b.extend(&d);
                let v = parsed(&b);
                let g = v[0].handler.get_graphics(&v[0], &ctx).expect("an image");
                let f = (1 + (m & 1) as u32, 1 + (m >> 1 & 1) as u32);
                check(&g, &raster(bw * 8, h, rgb(&c.color_1), &d).map(|p| scaled(&p, f.0, f.1)), "raster bit image");
            }
            _ => {
                let (w, h) = (nd.range(0, 20), nd.range(0, 20));
                let by_column = nd.bool();
                let (bx, by) = (nd.u8(), nd.u8());
                let d = nd.bytes(if by_column { column_len(w, h) } else { raster_len(w, h) });
                let mut p = vec![48, bx, by, 49, w as u8, 0, h as u8, 0];
                p.extend(&d);
                apply_stream(&envelope_graphics(if by_column { 113 } else { 112 }, &p), &mut ctx);
                let f = (if bx >= 2 { 2 } else { 1 }, if by >= 2 { 2 } else { 1 });
                let want = if by_column { column(w, h, rgb(&c.color_1), &d) } else { raster(w, h, rgb(&c.color_1), &d) };
                check(&ctx.graphics.buffer_graphics[0], &want.map(|p| scaled(&p, f.0, f.1)), "buffered graphic");
            }
        }
    }
}
