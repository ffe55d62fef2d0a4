//! C01: commands with a fixed number of parameters are framed exactly.
use crate::nd::Nd;
use crate::stream::*;
use crate::util::*;
use std::mem::ManuallyDrop;
use thermal_parser::command::*;
use thermal_parser::commands::*;

/// Offers bytes to a fresh command with `n` parameters.
fn frame(nd: &mut Nd, c: &mut Command, n: usize) {
    assert!(c.data.len() == 0, "a new command has no parameters yet");
    c.data.reserve(10);
    let mut want = [0u8; 8];
    let mut i = 0;
    while i < n {
        want[i] = nd.u8();
        assert!(c.push(want[i]), "a parameter byte is taken while parameters are missing, whatever its value");
        i += 1;
    }
    assert!(!c.push(nd.u8()), "no byte is taken after the last parameter");
    assert!(c.data.len() == n, "the command takes its documented number of parameters");
    let mut i = 0;
    while i < n {
        assert!(c.data[i] == want[i], "the parameters are kept in order");
        i += 1;
    }
}
/// The framing of one command of the table.
fn declared(nd: &mut Nd, i: usize) {
    let (op, n, new) = FIXED[i];
    let mut c = ManuallyDrop::new(new());
    assert!(c.commands.len() == op.len(), "the command is recognised by its documented bytes");
    let mut k = 0;
    while k < op.len() {
        assert!(c.commands[k] == op[k], "the command is recognised by its documented bytes");
        k += 1;
    }
    frame(nd, &mut c, n);
}
fn declared_range(nd: &mut Nd, lo: usize, hi: usize) {
    let mut i = lo;
    while i < hi && i < FIXED.len() {
        declared(nd, i);
        i += 1;
    }
}
#[cfg(not(kani))]
pub const STARTS: &[u8] = &[0x09, 0x0a, 0x0c, 0x0d, 0x10, 0x18, 0x1b, 0x1c, 0x1d];
#[cfg(not(kani))]
pub fn text_bytes(nd: &mut Nd, max: u32) -> Vec<u8> {
    let n = nd.range(1, max) as usize;
    let v = nd.bytes(n);
    let v: Vec<u8> = v.into_iter().map(|b| if STARTS.contains(&b) { b.wrapping_add(0x40) } else { b }).collect();
    v
}

crate::contracts! {
    full 12 fn c01_declared_1(nd) { declared_range(nd, 0, 6) }
    full 12 fn c01_declared_2(nd) { declared_range(nd, 6, 12) }
    full 12 fn c01_declared_3(nd) { declared_range(nd, 12, 18) }
    full 12 fn c01_declared_4(nd) { declared_range(nd, 18, 24) }
    full 12 fn c01_declared_5(nd) { declared_range(nd, 24, 30) }
    full 12 fn c01_declared_6(nd) { declared_range(nd, 30, 36) }
    full 12 fn c01_declared_7(nd) { declared_range(nd, 36, 42) }
    full 12 fn c01_declared_8(nd) { declared_range(nd, 42, 48) }
    exec fn c01_set(nd) {
        // the whole (finite) command set: every documented command is in it, and no opcode is the
        // prefix of another, so the first match is the only one
        let set = thermal_parser::command_sets::esc_pos::new();
        for (op, _, new) in FIXED {
            let n = set.commands.iter().filter(|c| c.commands.as_slice() == *op).count();
            assert!(n == 1, "{:?} is in the command set exactly once", op);
            let c = set.commands.iter().find(|c| c.commands.as_slice() == *op).unwrap();
            assert!(c.name == new().name, "{:?} is the right command", op);
        }
        for a in set.commands.iter() {
            assert!(!a.commands.is_empty());
            for b in set.commands.iter() {
                let same = a.commands == b.commands;
                assert!(same || !b.commands.starts_with(&a.commands), "no opcode hides another");
            }
            let n = set.commands.iter().filter(|c| c.commands == a.commands).count();
            assert!(n == 1, "every opcode is in the command set once");
        }
        let _ = nd.u8();
    }
    exec fn c01_stream(nd) {
        let n = nd.range(1, 10);
        let mut bytes = vec![];
        let mut want: Vec<(Vec<u8>, Vec<u8>, std::rc::Rc<String>)> = vec![];
        let mut text_before = false;
        for _ in 0..n {
            if !text_before && nd.range(0, 2) == 0 {
                let t = text_bytes(nd, 12);
                bytes.extend(&t);
                want.push((vec![], t, text::new().name));
                text_before = true;
            } else {
                let (op, k, new) = FIXED[nd.range(0, FIXED.len() as u32 - 1) as usize];
                let d = nd.bytes(k);
                bytes.extend(op);
                bytes.extend(&d);
                want.push((op.to_vec(), d, new().name));
                text_before = false;
            }
        }
        let got = parsed(&bytes);
        for (i, w) in want.iter().enumerate() {
            assert!(i < got.len(), "every command and text of {:02x?} is there", bytes);
            let g = &got[i];
            assert!(g.commands.as_slice() == w.0 && g.data == w.1, "item {} of {:02x?}: {:02x?} {:02x?} instead of {:02x?} {:02x?}",
                i, bytes, g.commands, g.data, w.0, w.1);
            assert!(g.name == w.2, "item {} of {:02x?} is {} instead of {}", i, bytes, g.name, w.2);
        }
        assert!(got.len() == want.len(), "nothing else is in {:02x?}", bytes);
    }
}
