//! C17: stored graphics are kept per key code and storage until deleted.
use crate::decode::*;
use crate::nd::Nd;
use crate::stream::any_command;
use crate::util::*;
use std::collections::HashMap;
use thermal_parser::context::*;

type Model = HashMap<(bool, u8, u8), Option<Pic>>;

fn compare(ctx: &Context, model: &Model, what: &str) {
    let prints = [thermal_parser::subcommands::gs_graphics::print_nv_graphic::new(), thermal_parser::subcommands::gs_graphics::print_download_graphics::new()];
    for (ram, print) in [(false, 0), (true, 1)] {
        for k1 in 32..35u8 {
            for k2 in 32..34u8 {
                let mut c = prints[print].clone();
                c.data = vec![k1, k2, 1, 1];
                let got = c.handler.get_graphics(&c, ctx);
                match (got, model.get(&(ram, k1, k2))) {
                    (None, None) => {}
                    (Some(g), Some(w)) => check(&g, w, what),
                    (g, _) => panic!("{}: graphic {} {} (download storage: {}) is {}", what, k1, k2, ram, if g.is_some() { "still there" } else { "lost" }),
                }
            }
        }
    }
    assert!(ctx.graphics.stored_graphics.len() == model.len(), "{}: {} graphics are stored instead of {}", what, ctx.graphics.stored_graphics.len(), model.len());
}
fn step(nd: &mut Nd, ctx: &mut Context, model: &mut Model) -> String {
    let k = [nd.range(32, 34) as u8, nd.range(32, 33) as u8];
    let colors = ctx.graphics.render_colors.clone();
    match nd.range(0, 9) {
        0..=4 => {
            let f = nd.pick(&[67u8, 68, 83, 84]);
            let by_column = f == 68 || f == 84;
            let (w, h) = (nd.range(0, 10), nd.range(0, 10));
            let n = nd.range(1, 2) as u8;
            let mut p = vec![48, k[0], k[1], n, w as u8, 0, h as u8, 0];
            for _ in 0..n {
                p.push(nd.range(49, 51) as u8);
                p.extend(nd.bytes(if by_column { column_len(w, h) } else { raster_len(w, h) }));
            }
            if nd.range(0, 7) == 0 {
                let k = nd.range(0, 9) as usize;
                p.truncate(k);
            }
            apply_stream(&envelope_graphics(f, &p), ctx);
            if p.len() >= 8 {
                model.insert((f > 80, k[0], k[1]), multi(w, h, n, by_column, &colors, &p[8..]));
            }
            format!("define {} {:?}", f, p)
        }
        5 | 6 => {
            let f = nd.pick(&[66u8, 82]);
            apply_stream(&envelope_graphics(f, &k), ctx);
            model.remove(&(f == 82, k[0], k[1]));
            format!("delete {} {:?}", f, k)
        }
        7 => {
            let f = nd.pick(&[65u8, 81]);
            let p: &[u8] = if f == 65 { b"CLR" } else { b"CLR" };
            apply_stream(&envelope_graphics(f, p), ctx);
            model.retain(|key, _| key.0 != (f == 81));
            format!("delete all {}", f)
        }
        _ => {
            // any other command leaves them alone, except initialize
            let c = any_command(nd);
            let v = parsed(&c);
            let touches = v.iter().any(|c| c.name == thermal_parser::commands::initialize::new().name)
                || (c.len() > 6 && matches!((&c[..3], c[6]), ([0x1d, b'(', b'L'], 65..=68 | 81..=84)));
            if touches {
                return format!("nothing");
            }
            apply_stream(&c, ctx);
            format!("{:02x?}", c)
        }
    }
}

crate::contracts! {
    exec fn c17_history(nd) {
        let mut ctx = Context::new();
        ctx.graphics.render_colors = colors(nd);
        let mut model = Model::new();
        // the print commands reach their storage through the parser
        for (f, new) in [(69u8, thermal_parser::subcommands::gs_graphics::print_nv_graphic::new()), (85, thermal_parser::subcommands::gs_graphics::print_download_graphics::new())] {
            let v = parsed(&envelope_graphics(f, &[1, 2, 1, 1]));
            assert!(v.len() == 1 && v[0].name == new.name && v[0].data == [1, 2, 1, 1]);
        }
        let n = nd.range(1, 12);
        for _ in 0..n {
            let what = step(nd, &mut ctx, &mut model);
            compare(&ctx, &model, &what);
        }
    }
}
