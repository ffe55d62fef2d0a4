//! C03: 2D code and graphics envelopes reach the right function with their parameters.
use crate::nd::Nd;
use crate::snap::*;
#[cfg(not(kani))]
use crate::stream;
use crate::util::*;
use std::mem::ManuallyDrop;
use std::rc::Rc;
use thermal_parser::command::*;
use thermal_parser::commands::*;
use thermal_parser::subcommands;

/// The documented 2D code functions: symbol type and function.
pub const FUNCTIONS_2D: &[(u8, &[u8])] = &[
    (48, &[65, 66, 67, 69, 70, 80, 81, 82]),
    (49, &[65, 67, 69, 80, 81, 82]),
    (50, &[65, 80, 81, 82]),
    (51, &[67, 71, 80, 81, 82]),
    (52, &[67, 71, 72, 80, 81, 82]),
    (53, &[66, 67, 69, 80, 81, 82]),
    (54, &[66, 67, 80, 81, 82]),
];
fn known_2d(m: u8, f: u8) -> bool {
    FUNCTIONS_2D.iter().any(|(a, fs)| *a == m && fs.contains(&f))
}
/// The documented graphics functions (alternative numbers of one function together).
pub const FUNCTIONS_GRAPHICS: &[(&[u8], fn() -> Command)] = {
    use thermal_parser::subcommands::gs_graphics::*;
    &[
        (&[0, 48], get_nv_capacity::new), (&[1, 49], set_dot_density::new), (&[2, 50], print_buffer_graphics::new),
        (&[4, 52], get_nv_remaining_capacity::new), (&[64], get_nv_keycodes::new), (&[65], clear_all_nv_graphics::new),
        (&[66], clear_nv_graphic::new), (&[67], define_nv_graphics_raster::new), (&[68], define_nv_graphics_column::new),
        (&[69], print_nv_graphic::new), (&[80], get_download_keycodes::new), (&[81], clear_all_download_graphics::new),
        (&[82], clear_download_graphic::new), (&[83], define_download_graphics_raster::new),
        (&[84], define_download_graphics_column::new), (&[85], print_download_graphics::new),
        (&[112], store_buffer_graphics_raster::new), (&[113], store_buffer_graphics_column::new),
    ]
};

/// Two functions with distinct selectors, as a small function table.
fn table(nd: &mut Nd) -> ([u8; 4], Rc<Vec<Command>>) {
    let ids = [nd.u8(), nd.u8(), nd.u8(), nd.u8()];
    let f = |k: usize| {
        let mut c = cancel::new();
        c.commands = Rc::new(vec![ids[k], ids[k + 1]]);
        c.data_kind = DataType::Subcommand;
        c
    };
    (ids, Rc::new(vec![f(0), f(2)]))
}
/// Everything about one envelope over a small function table with arbitrary selectors.
fn envelope(nd: &mut Nd, large: bool, use_m: bool, max: usize) {
    let (ids, fs) = table(nd);
    let mut h = ManuallyDrop::new(subcommands::new(large, use_m, fs));
    let mut data = ManuallyDrop::new(Vec::with_capacity(16));
    let (m, f) = (nd.u8(), nd.u8());
    let size: u32 = if large {
        let b = [nd.u8(), nd.u8(), nd.u8(), nd.u8()];
        let mut i = 0;
        while i < 4 {
            assert!(h.push(&mut data, b[i]));
            i += 1;
        }
        u32::from_le_bytes(b)
    } else {
        let b = [nd.u8(), nd.u8()];
        assert!(h.push(&mut data, b[0]) && h.push(&mut data, b[1]), "the size is taken");
        u16::from_le_bytes(b) as u32
    };
    assert!(h.push(&mut data, m) && h.push(&mut data, f), "the selectors are taken");
    let n = if size > 2 { size - 2 } else { 0 } as usize;
    let k = if n < max { n } else { max };
    let p = [nd.u8(), nd.u8(), nd.u8()];
    let mut i = 0;
    while i < k {
        assert!(h.push(&mut data, p[i]), "exactly the announced bytes are taken");
        i += 1;
    }
    if k == n {
        assert!(!h.push(&mut data, nd.u8()), "nothing behind the announced bytes is taken");
    }
    // the selected function
    let first = if use_m { ids[0] == m && ids[1] == f } else { ids[0] == f || ids[1] == f };
    let second = if use_m { ids[2] == m && ids[3] == f } else { ids[2] == f || ids[3] == f };
    let sub = ManuallyDrop::new(h.get_subcommand());
    assert!(sub.is_some() == (first || second), "the selectors choose a function, or none");
    if let Some(s) = &*sub {
        assert!(s.data.len() == k, "the function is given its parameters");
        let mut i = 0;
        while i < k {
            assert!(s.data[i] == p[i], "the parameters are delivered unchanged and in order");
            i += 1;
        }
        assert!(data.len() == 0);
    } else {
        assert!(data.len() == k + if large { 6 } else { 4 }, "an unknown function keeps all its bytes");
    }
}

#[cfg(not(kani))]
fn inert(c: &Command, ctx: &mut thermal_parser::context::Context) {
    assert!(c.handler.get_text(c, ctx).is_none(), "no function: no text");
    assert!(c.handler.get_graphics(c, ctx).is_none(), "no function: no graphics");
    assert!(c.handler.get_device_command(c, ctx).map(|d| d.len()).unwrap_or(0) == 0, "no function: no device command");
    let want = snap(ctx);
    c.handler.apply_context(c, ctx);
    assert!(snap(ctx) == want, "no function: no effect");
}

crate::contracts! {
    exec fn c03_two_byte_size_by_type_and_function(nd) { let b = nd.bound(2, 3) as usize; envelope(nd, false, true, b) }
    exec fn c03_two_byte_size_by_function(nd) { let b = nd.bound(2, 3) as usize; envelope(nd, false, false, b) }
    exec fn c03_four_byte_size_by_function(nd) { let b = nd.bound(2, 3) as usize; envelope(nd, true, false, b) }
    exec fn c03_tables(nd) {
        let all = subcommands::gs_code2d::all();
        for (m, fs) in FUNCTIONS_2D {
            for f in *fs {
                assert!(all.iter().filter(|c| c.commands.as_slice() == [*m, *f]).count() >= 1, "function {} {} exists", m, f);
            }
        }
        assert!(all.iter().all(|c| c.commands.len() == 2 && known_2d(c.commands[0], c.commands[1])), "every function is a documented one");
        let all = subcommands::gs_graphics::all();
        for (ids, new) in FUNCTIONS_GRAPHICS {
            for id in *ids {
                let v: Vec<_> = all.iter().filter(|c| c.commands.contains(id)).collect();
                assert!(v.len() >= 1 && v.iter().all(|c| c.name == new().name), "function {} exists", id);
            }
        }
        assert!(all.iter().all(|c| c.commands.iter().all(|b| FUNCTIONS_GRAPHICS.iter().any(|f| f.0.contains(b)))));
        let _ = nd.u8();
    }
    exec fn c03_stream(nd) {
        let form = nd.range(0, 2);
        let (op, large): (&[u8], bool) = match form {
            0 => (&[0x1d, b'(', b'k'], false),
            1 => (&[0x1d, b'(', b'L'], false),
            _ => (&[0x1d, b'8', b'L'], true),
        };
        let mut m = nd.u8();
        let mut f = nd.u8();
        match nd.range(0, 3) {
            0 => {
                let (a, fs) = nd.pick(FUNCTIONS_2D);
                m = a;
                f = nd.pick(fs);
            }
            1 => {
                let (ids, _) = nd.pick(FUNCTIONS_GRAPHICS);
                f = nd.pick(ids);
                m = 48;
            }
            2 => {
                // near misses: a function of another symbol type
                m = nd.range(47, 56) as u8;
                f = nd.range(64, 83) as u8;
            }
            _ => {}
        }
        let n = match nd.range(0, 12) { 0 => nd.range(0, 900), 1 => nd.range(252, 258), _ => nd.range(0, 9) } as usize;
        let announced = if n == 0 { nd.range(0, 2) } else { n as u32 + 2 };
        let p = nd.bytes(n);
        let mut meta = announced.to_le_bytes()[..if large { 4 } else { 2 }].to_vec();
        meta.push(m);
        meta.push(f);
        let before = stream::text(nd, 3);
        let after: Vec<u8> = match nd.range(0, 2) { 0 => stream::text(nd, 3), 1 => vec![0x1b, b'E', nd.u8()], _ => vec![] };
        let bytes = [&before[..], op, &meta[..], &p[..], &after[..]].concat();
        let got = parsed(&bytes);
        assert!(got.len() == 2 + (after.len() > 0) as usize, "{:02x?} is one envelope between its neighbours", bytes);
        assert!(got[0].data == before);
        if after.len() > 0 {
            let (a, b) = got[2].handler.get_command_bytes(&got[2]);
            assert!([a, b].concat() == after, "what follows is not part of it");
        }
        let c = &got[1];
        let name = if form == 0 {
            if known_2d(m, f) {
                subcommands::gs_code2d::all().iter().find(|c| c.commands.as_slice() == [m, f]).map(|c| c.name.clone())
            } else { None }
        } else {
            FUNCTIONS_GRAPHICS.iter().find(|x| x.0.contains(&f)).map(|x| x.1().name)
        };
        match name {
            Some(name) => {
                assert!(c.name == name, "{} {} selects {} instead of {}", m, f, c.name, name);
                assert!(c.data == p, "the parameters are delivered unchanged and in order");
                assert!(c.commands.as_slice() == [op, &meta[..]].concat());
            }
            None => {
                let mut ctx = any_state(nd);
                ctx.code2d.symbol_storage = Some(thermal_parser::graphics::Code2D { points: vec![1; 4], width: 2, point_width: 1, point_height: 1 });
                ctx.graphics.buffer_graphics.push(thermal_parser::graphics::GraphicsCommand::Error(String::new()));
                inert(c, &mut ctx);
            }
        }
        let (a, b) = c.handler.get_command_bytes(c);
        assert!([a, b].concat() == [op, &meta[..], &p[..]].concat(), "the command keeps all its bytes");
    }
}
