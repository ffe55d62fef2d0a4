//! C29: writing commands as a thermal file and reading it back is lossless.
use crate::nd::Nd;
use crate::stream::*;
use crate::util::*;
use thermal_parser::thermal_file::*;

fn check(bytes: &[u8]) {
    let cmds = parsed(bytes);
    let text = cmds_to_thermal(&cmds);
    let back = parse_str(&text);
    assert!(back == bytes, "{:02x?} written as {:?} reads {:02x?}", bytes, text, back);
    // and with the begin and end markers of the parser
    let all = thermal_parser::parse_esc_pos(&bytes.to_vec());
    assert!(parse_str(&cmds_to_thermal(&all)) == bytes, "{:02x?} with its markers", bytes);
}
fn awkward(nd: &mut Nd) -> Vec<u8> {
    let n = nd.range(1, 12);
    let mut v: Vec<u8> = vec![];
    for _ in 0..n {
        v.extend_from_slice(nd.pick(&[&b"\""[..], b"\\", b"'//", b"0x41", b"65", b"ESC", b" ", b"a", b"\t", b"\r", b"\x0b", b"\x85", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(),
            "\u{85}".as_bytes(), "\u{2028}".as_bytes(), b"\xe9", b"\xff", b"\x00", b"\x7f", b"\n", b"\x0c", b"\xc3", b"\\\"", b"\\\\", b"256", b"{}"]));
    }
    v
}

crate::contracts! {
    exec fn c29_commands(nd) {
        let n = nd.range(1, 5);
        let mut v = vec![];
        for _ in 0..n {
            v.extend(any_command(nd));
            if nd.range(0, 3) == 0 { v.extend(awkward(nd)); }
        }
        if nd.range(0, 3) == 0 {
            let k = nd.range(0, v.len() as u32) as usize;
            v.truncate(k);
        }
        check(&v);
    }
    exec fn c29_text(nd) {
        check(&awkward(nd));
    }
    exec fn c29_any_bytes(nd) {
        let n = nd.range(0, 40) as usize;
        let v = nd.bytes(n);
        check(&v);
    }
    exec fn c29_short(nd) {
        // every stream of up to two bytes
        let a = nd.u8();
        check(&[a]);
        for b in 0..=255u8 {
            check(&[a, b]);
        }
    }
}
