//! C31: missing or malformed parameters never panic.
use crate::known;
use crate::nd::Nd;
use crate::stream::*;
use crate::util::*;
use thermal_parser::context::Context;

/// Everything a renderer asks of the commands of a stream.
fn drive(bytes: &[u8], ctx: &mut Context) {
    for k in parsed(bytes) {
        k.handler.debug(&k, ctx);
        k.handler.get_command_bytes(&k);
        k.handler.apply_context(&k, ctx);
        if let Some(mut t) = k.handler.get_text(&k, ctx) {
            t.get_dimensions(ctx);
            t.break_into_words();
        }
        k.handler.get_graphics(&k, ctx);
        k.handler.get_device_command(&k, ctx);
    }
}
fn check(bytes: &[u8]) {
    let r = std::panic::catch_unwind(|| {
        let mut c = Context::new();
        drive(bytes, &mut c);
        // and again in the state it left behind
        drive(bytes, &mut c);
    });
    if r.is_err() && !known::stream_hits(bytes) {
        panic!("panics on {:02x?}", bytes);
    }
}
/// a command prefix of the set, the opcodes with their own payloads included
fn prefix(nd: &mut Nd) -> Vec<u8> {
    match nd.range(0, 9) {
        0..=4 => FIXED[nd.range(0, FIXED.len() as u32 - 1) as usize].0.to_vec(),
        5 => vec![0x1b, b'*'],
        6 => vec![0x1d, b'v', b'0'],
        7 => nd.pick(&[&[0x1d, b'k'][..], &[0x1d, b'V'], &[0x1d, b'(', b'N'], &[0x1d, b'8', b'L']]).to_vec(),
        8 => {
            let (a, b) = CODE2D[nd.range(0, CODE2D.len() as u32 - 1) as usize];
            let n = nd.range(2, 9) as u8;
            vec![0x1d, b'(', b'k', n, 0, a, b]
        }
        _ => {
            let f = GRAPHICS[nd.range(0, GRAPHICS.len() as u32 - 1) as usize];
            let n = nd.range(2, 30) as u8;
            vec![0x1d, b'(', b'L', n, 0, 48, f]
        }
    }
}

crate::contracts! {
    exec fn c31_commands(nd) {
        let n = nd.range(1, 8);
        let mut v = vec![];
        for _ in 0..n {
            v.extend(any_command(nd));
        }
        check(&v);
        // every truncation of the last command
        let full = v.len();
        let k = nd.range(0, full as u32) as usize;
        v.truncate(k);
        check(&v);
    }
    exec fn c31_missing_parameters(nd) {
        // a command with fewer parameters than it takes, at the end of the stream, in any state
        let n = nd.range(0, 3);
        let mut v = vec![];
        for _ in 0..n {
            v.extend(any_command(nd));
        }
        v.extend(prefix(nd));
        let k = nd.range(0, 12) as usize;
        v.extend(nd.bytes(k));
        check(&v);
    }
    exec fn c31_extreme_parameters(nd) {
        let n = nd.range(1, 4);
        let mut v = vec![];
        for _ in 0..n {
            v.extend(prefix(nd));
            let k = nd.range(0, 10) as usize;
            let b = nd.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
            v.extend(vec![b; k]);
        }
        check(&v);
    }
    exec fn c31_any_bytes(nd) {
        let n = nd.range(0, 60) as usize;
        let v = nd.bytes(n);
        check(&v);
    }
    exec fn c31_text(nd) {
        // text of any bytes, sizes, tables and sets
        let mut v = vec![0x1b, b't', nd.u8(), 0x1b, b'R', nd.u8(), 0x1d, b'!', nd.u8(), 0x1b, b'M', nd.u8()];
        let n = nd.range(0, 30) as usize;
        v.extend(nd.bytes(n));
        check(&v);
    }
}
