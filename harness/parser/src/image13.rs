//! C13: column images decode bit for bit.
use crate::decode::*;
use crate::util::*;
use thermal_parser::context::Context;
use thermal_parser::graphics::*;

crate::contracts! {
    exec fn c13_column(nd) {
        let (w, h) = dims(nd);
        let d = amount(nd, column_len(w, h));
        let col = RGBA { r: nd.u8(), g: nd.u8(), b: nd.u8(), a: 255 };
        let got = GraphicsCommand::image_from_column_bytes_single_color(w, h, (1, 1), &col, ImageFlow::Block, &d);
        check(&got, &column(w, h, rgb(&col), &d), "column image");
    }
    exec fn c13_layer(nd) {
        let (w, h) = dims(nd);
        let mut d = vec![nd.u8()];
        d.extend(amount(nd, column_len(w, h)));
        let c = colors(nd);
        let got = GraphicsCommand::image_from_column_bytes_multi_color(w, h, (1, 1), 1, &c, ImageFlow::Block, &d);
        check(&got, &multi(w, h, 1, true, &c, &d), "column image of one layer");
    }
    exec fn c13_commands(nd) {
        let mut ctx = Context::new();
        ctx.graphics.render_colors = colors(nd);
        let c = ctx.graphics.render_colors.clone();
        match nd.range(0, 1) {
            0 => {
                let m = nd.pick(&[1u8, 33]);
                let h = if m == 1 { 8 } else { 24 };
                let w = if nd.range(0, 9) == 0 { nd.range(0, 700) } else { nd.range(0, 20) };
                let n = column_len(w, h);
                let d = if nd.range(0, 3) == 0 { let k = nd.range(0, n as u32) as usize; nd.bytes(k) } else { nd.bytes(n) };
                let mut b = vec![0x1b, b'*', m, w as u8, (w >> 8) as u8];
                b.extend(&d);
                let v = parsed(&b);
                assert!(v.len() == 1);
                let g = v[0].handler.get_graphics(&v[0], &ctx).expect("a bit image prints something");
                check(&g, &column(w, h, rgb(&c.color_1), &d), "bit image");
            }
            _ => {
                let (w, h) = dims(nd);
                let number = nd.range(48, 52) as u8;
                let d = amount(nd, column_len(w, h));
                let mut p = vec![48, 1, 1, number, w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8];
                p.extend(&d);
                apply_stream(&envelope_graphics(113, &p), &mut ctx);
                assert!(ctx.graphics.buffer_graphics.len() == 1);
                check(&ctx.graphics.buffer_graphics[0], &column(w, h, colour_no(number, &c), &d), "stored column graphic");
            }
        }
    }
}
