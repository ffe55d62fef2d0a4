//! C04: parsing loses, invents and reorders no byte.
use crate::nd::Nd;
#[cfg(not(kani))]
use crate::stream::*;

use std::mem::ManuallyDrop;
use thermal_parser::command::*;
use thermal_parser::commands::*;

/// Offers up to `max` arbitrary bytes to a command; its own bytes must be its command bytes followed
/// by exactly the bytes it took.
fn keeps(c: Command, op: &[u8], nd: &mut Nd, max: usize) {
    let mut c = ManuallyDrop::new(c);
    let mut took = [0u8; 16];
    let mut n = 0;
    let mut i = 0;
    while i < max {
        let b = nd.u8();
        if !c.push(b) {
            break;
        }
        took[n] = b;
        n += 1;
        i += 1;
    }
    let (a, d) = c.handler.get_command_bytes(&c);
    let (a, d) = (ManuallyDrop::new(a), ManuallyDrop::new(d));
    assert!(a.len() + d.len() == op.len() + n, "no byte is lost or invented");
    let mut i = 0;
    while i < op.len() + n {
        let got = if i < a.len() { a[i] } else { d[i - a.len()] };
        let want = if i < op.len() { op[i] } else { took[i - op.len()] };
        assert!(got == want, "the bytes are kept in order");
        i += 1;
    }
}
#[cfg(not(kani))]
fn noise(nd: &mut Nd) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..nd.range(0, 8) {
        match nd.range(0, 5) {
            0 => {
                let n = nd.range(0, 12) as usize;
                v.extend(nd.bytes(n));
            }
            1 => {
                // the beginning of a command
                let c = any_command(nd);
                let n = nd.range(0, c.len() as u32) as usize;
                v.extend(&c[..n]);
            }
            2 => v.extend(nd.pick(&[&[0x1bu8][..], &[0x1d], &[0x1d, b'('], &[0x1b, b'c'], &[0x10, 4], &[0x1c, b'p', 1], &[0x18], &[0x1d, b'8'], &[0x1d, b'v']])),
            _ => v.extend(any_command(nd)),
        }
    }
    v
}
#[cfg(not(kani))]
fn shape(v: &[Command]) -> Vec<(Vec<u8>, Vec<u8>, String)> {
    v.iter().map(|c| {
        let (a, b) = c.handler.get_command_bytes(c);
        (a, b, c.name.to_string())
    }).collect()
}

crate::contracts! {
    exec fn c04_text(nd) { keeps(text::new(), &[], nd, 4) }
    exec fn c04_parameters(nd) { keeps(page_mode_print_area::new(), &[0x1b, b'W'], nd, 8) }
    exec fn c04_unknown(nd) { keeps(unknown::new(), &[], nd, 4) }
    exec fn c04_column_image(nd) { keeps(bit_image::new(), &[0x1b, b'*'], nd, 5) }
    exec fn c04_raster_image(nd) { keeps(raster_bit_image::new(), &[0x1d, b'v', b'0'], nd, 6) }
    exec fn c04_barcode(nd) { keeps(barcode::new(), &[0x1d, b'k'], nd, 4) }
    exec fn c04_cut(nd) { keeps(feed_and_cut::new(), &[0x1d, b'V'], nd, 3) }
    exec fn c04_effects(nd) { keeps(set_character_effects::new(), &[0x1d, b'(', b'N'], nd, 5) }
    exec fn c04_table(nd) {
        // the (finite) facts about the command set that the proofs about the parser assume
        let set = thermal_parser::command_sets::esc_pos::new();
        let d = { let n = nd.range(0, 9) as usize; nd.bytes(n) };
        let owns = |c: &Command| { let (mut a, b) = c.handler.get_command_bytes(c); a.extend(b); a };
        let by_handler = |c: &Command| c.data_kind == DataType::Custom || c.data_kind == DataType::Subcommand;
        let plain = |c: &Command, silent: bool| {
            let mut c = c.clone();
            c.data = d.clone();
            let mut want = if silent { vec![] } else { c.commands.to_vec() };
            want.extend(&d);
            assert!(owns(&c) == want, "{} keeps its bytes in its data", c.name);
            assert!(c.handler.get_subcommand().is_none(), "{} stands for no other command", c.name);
        };
        for c in set.commands.iter() {
            assert!(c.data.is_empty() && (1..=255).contains(&c.commands.len()), "{} starts with its command bytes alone", c.name);
            assert!(owns(c) == *c.commands, "{} starts with its command bytes alone", c.name);
            assert!(c.data_kind != DataType::Text && c.data_kind != DataType::Unknown, "{} takes a known number of bytes", c.name);
            if !by_handler(c) {
                plain(c, false);
            }
        }
        assert!(set.default.data_kind == DataType::Text && set.default.kind != CommandType::Subcommand && owns(&set.default).is_empty());
        plain(&set.default, false);
        assert!(set.unknown.data_kind == DataType::Unknown && set.unknown.kind != CommandType::Subcommand);
        plain(&set.unknown, true);
        for m in [&set.begin_parsing, &set.end_parsing] {
            assert!(m.kind != CommandType::Subcommand && owns(m).is_empty(), "{} owns no byte", m.name);
        }
        for c in thermal_parser::subcommands::gs_code2d::all().iter().chain(thermal_parser::subcommands::gs_graphics::all().iter()) {
            assert!(c.data.is_empty(), "{} starts without data", c.name);
            plain(c, false);
        }
        // what Command::clone is assumed to do
        for c in set.commands.iter() {
            let k = c.clone();
            assert!(k.name == c.name && k.commands == c.commands && k.kind == c.kind && k.data_kind == c.data_kind && k.data == c.data && owns(&k) == owns(c));
        }
    }
    exec fn c04_stream(nd) {
        let bytes = noise(nd);
        let v = thermal_parser::parse_esc_pos(&bytes);
        assert!(v.len() >= 2 && v[0].name == begin_print::new().name && v[v.len() - 1].name == end_print::new().name,
            "a begin marker first and an end marker last");
        for m in [&v[0], &v[v.len() - 1]] {
            assert!(m.commands.len() == 0 && m.data.len() == 0, "the markers own no byte");
        }
        let mut got = vec![];
        for c in &v {
            let (a, b) = c.handler.get_command_bytes(c);
            got.extend(a);
            got.extend(b);
        }
        assert!(got == bytes, "the bytes of the commands are {:02x?} instead of {:02x?}", got, bytes);
        for c in &v[1..v.len() - 1] {
            let (a, b) = c.handler.get_command_bytes(c);
            assert!(a.len() + b.len() > 0, "every command owns a byte");
            assert!(c.name != begin_print::new().name && c.name != end_print::new().name, "one begin and one end marker");
        }
    }
    exec fn c04_next_stream(nd) {
        let a = noise(nd);
        let b = noise(nd);
        let mut p = thermal_parser::parser::Parser::new(thermal_parser::command_sets::esc_pos::new());
        p.parse_bytes(&a);
        let second = p.parse_bytes(&b);
        let alone = thermal_parser::parse_esc_pos(&b);
        assert!(shape(&second) == shape(&alone), "{:02x?} parses differently after {:02x?}", b, a);
    }
}
