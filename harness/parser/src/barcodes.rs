//! C26: barcodes print what was sent or report an error.
use crate::nd::Nd;
use crate::snap::*;
use crate::stream::any_command;
use crate::util::*;
use barcoders::sym::{codabar::Codabar, code128::Code128, code39::Code39, code93::Code93, ean13::EAN13, ean8::EAN8, tf::TF};
use thermal_parser::context::*;
use thermal_parser::graphics::*;
use thermal_parser::utils::barcodes::upce::UPCE;

const CODE39: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%*";
const CODABAR: &str = "0123456789-$:/.+ABCD";

/// The modules of a symbol of a kind (0-6 or 65-73) for the data, none if it can not be encoded.
fn modules(kind: u8, data: &str) -> Option<Vec<u8>> {
    let n = data.len();
    let number = data.bytes().all(|b| b.is_ascii_digit());
    match if kind >= 65 { kind - 65 } else { kind } {
        0 => if number && (n == 11 || n == 12) { EAN13::new(format!("0{}", &data[..11])).ok().map(|b| b.encode()) } else { None },
        1 => if matches!(n, 6 | 7 | 8 | 11 | 12) { UPCE::new(data.to_string()).ok().map(|b| b.encode()) } else { None },
        2 => if number && (n == 12 || n == 13) { EAN13::new(&data[..12]).ok().map(|b| b.encode()) } else { None },
        3 => if n == 7 || n == 8 { EAN8::new(data).ok().map(|b| b.encode()) } else { None },
        4 => Code39::new(data.replace('*', "")).ok().map(|b| b.encode()),
        5 => if n > 2 { TF::interleaved(data).ok().map(|b| b.encode()) } else { None },
        6 => if n > 2 { Codabar::new(data).ok().map(|b| b.encode()) } else { None },
        7 => if n > 0 { Code93::new(data).ok().map(|b| b.encode()) } else { None },
        8 => if n > 1 { Code128::new(data.replace("{A", "\u{c0}").replace("{B", "\u{181}").replace("{C", "\u{106}")).ok().map(|b| b.encode()) } else { None },
        _ => None,
    }
}
fn bytes_of(kind: u8, data: &[u8]) -> Vec<u8> {
    let mut v = vec![0x1d, b'k', kind];
    if kind <= 6 {
        v.extend(data);
        v.push(0);
    } else {
        v.push(data.len() as u8);
        v.extend(data);
    }
    v
}
fn printed(bytes: &[u8], c: &Context) -> Option<GraphicsCommand> {
    let v = parsed(bytes);
    assert!(v.len() == 1, "one command: {:02x?}", bytes);
    v[0].handler.get_graphics(&v[0], c)
}
fn settings(nd: &mut Nd) -> Context {
    let mut c = Context::new();
    if nd.bool() {
        havoc_barcode(nd, &mut c);
        c.text.character_width = nd.u8();
        c.text.justify = nd_justify(nd);
    } else {
        apply_stream(&[0x1d, b'h', nd.u8(), 0x1d, b'w', nd.u8(), 0x1d, b'H', nd.u8(), 0x1d, b'f', nd.u8()], &mut c);
    }
    c
}
fn compare(kind: u8, data: &[u8], c: &Context) -> bool {
    let bytes = bytes_of(kind, data);
    let got = printed(&bytes, c).expect("a barcode command prints something");
    let text = std::str::from_utf8(data).ok();
    let want = if data.len() > 255 { None } else { text.and_then(|t| modules(kind, t)) };
    match (got, want) {
        (GraphicsCommand::Error(_), None) => false,
        (GraphicsCommand::Barcode(b), Some(m)) => {
            let t = text.unwrap();
            let hri = if kind == 73 { t.replace("{A", "").replace("{B", "").replace("{C", "") } else { t.to_string() };
            assert!(b.points == m, "kind {} data {:?}: another symbol", kind, t);
            assert!(b.point_width == c.barcode.width && b.point_height == c.barcode.height, "the current module size");
            assert!(hri_no(&b.hri) == hri_no(&c.barcode.human_readable), "the current text position");
            assert!(b.text.text == hri, "kind {} data {:?}: the text is {:?}", kind, t, b.text.text);
            assert!(font_no(&b.text.font) == font_no(&c.barcode.font), "the current barcode font");
            true
        }
        (GraphicsCommand::Error(e), Some(_)) => panic!("kind {} data {:?} has a symbol: {}", kind, text, e),
        (GraphicsCommand::Barcode(b), None) => panic!("kind {} data {:02x?} has no symbol: {:?}", kind, data, b.points),
        _ => panic!("kind {} data {:02x?} prints something else", kind, data),
    }
}
fn chars(nd: &mut Nd, set: &str, n: usize) -> Vec<u8> {
    (0..n).map(|_| set.as_bytes()[nd.range(0, set.len() as u32 - 1) as usize]).collect()
}
fn data_for(nd: &mut Nd, kind: u8) -> Vec<u8> {
    let n = nd.range(0, 15) as usize;
    let digits = "0123456789";
    match if kind >= 65 { kind - 65 } else { kind } {
        0 | 2 => { let n = nd.range(10, 14) as usize; chars(nd, digits, n) }
        1 => {
            let n = nd.range(5, 13) as usize;
            let set = if nd.bool() { "0000012" } else { digits };
            let mut d = chars(nd, set, n);
            if nd.bool() && n > 0 { d[0] = 48; }
            d
        }
        3 => {
            let n = nd.range(6, 9) as usize;
            let mut d = chars(nd, digits, n);
            if n == 8 {
                // mostly with the right check digit
                let s: u32 = d[..7].iter().enumerate().map(|(i, c)| (c - 48) as u32 * if i % 2 == 0 { 3 } else { 1 }).sum();
                if nd.bool() { d[7] = 48 + ((10 - s % 10) % 10) as u8; }
            }
            d
        }
        4 => chars(nd, CODE39, n),
        5 => chars(nd, digits, n),
        6 => {
            let mut d = chars(nd, CODABAR, n);
            if n > 1 && nd.bool() {
                for c in d.iter_mut() { if c.is_ascii_uppercase() { *c = b'7'; } }
                let (a, b) = (nd.range(65, 68) as u8, nd.range(65, 68) as u8);
                d[0] = a;
                d[n - 1] = b;
            }
            d
        }
        7 => (0..n).map(|_| nd.range(32, 90) as u8).collect(),
        _ => {
            let mut d = vec![b'{', nd.pick(&[b'A', b'B', b'C', b'A', b'B'])];
            let set = nd.range(0, 2);
            for _ in 0..n {
                d.push(match set { 0 => nd.range(48, 57) as u8, 1 => nd.range(32, 126) as u8, _ => nd.range(65, 90) as u8 });
                if nd.range(0, 9) == 0 { d.push(b'{'); d.push(nd.range(65, 67) as u8); }
            }
            d
        }
    }
}

crate::contracts! {
    exec fn c26_symbol(nd) {
        let c = settings(nd);
        let kind = nd.pick(&[0u8, 1, 2, 3, 4, 5, 6, 65, 66, 67, 68, 69, 70, 71, 72, 73]);
        let mut data = data_for(nd, kind);
        if nd.range(0, 5) == 0 && data.len() > 0 {
            // one character of it is something else
            let i = nd.range(0, data.len() as u32 - 1) as usize;
            data[i] = nd.u8();
        }
        if nd.range(0, 9) == 0 {
            let s = nd.pick(&["\u{e9}", "\u{20ac}", "\u{c0}", "\u{181}", "\u{106}"]);
            let i = nd.range(0, data.len() as u32) as usize;
            data.splice(i..i, s.bytes());
        }
        if kind <= 6 {
            for b in data.iter_mut() { if *b == 0 { *b = 1; } }
        }
        let ok = compare(kind, &data, &c);
        // the lower code and the upper code of a kind are the same
        if kind <= 6 {
            assert!(compare(kind + 65, &data, &c) == ok);
        }
    }
    exec fn c26_any_data(nd) {
        let c = settings(nd);
        let kind = nd.pick(&[0u8, 1, 2, 3, 4, 5, 6, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79]);
        let n = if nd.bool() { nd.range(0, 16) } else { nd.range(0, 255) } as usize;
        let mut data = nd.bytes(n);
        if kind <= 6 {
            for b in data.iter_mut() { if *b == 0 { *b = 0x80; } }
        }
        compare(kind, &data, &c);
    }
    exec fn c26_other_kinds(nd) {
        let c = settings(nd);
        let kind = nd.u8();
        nd.assume((kind > 6 && kind < 65) || kind > 73);
        let n = nd.range(0, 13) as usize;
        let d = chars(nd, "0123456789", n);
        let mut bytes = vec![0x1d, b'k', kind];
        if kind < 80 && kind > 73 {
            bytes.push(n as u8);
            bytes.extend(d);
        }
        match printed(&bytes, &c) {
            Some(GraphicsCommand::Error(_)) => {}
            _ => panic!("kind {} is an error", kind),
        }
    }
    exec fn c26_history(nd) {
        // the settings of the moment, whatever else was sent before
        let mut c = Context::new();
        let n = nd.range(0, 4);
        for _ in 0..n {
            let k = any_command(nd);
            apply_stream(&k, &mut c);
        }
        let kind = nd.pick(&[2u8, 4, 5, 65, 66, 68, 71, 72, 73]);
        let data = data_for(nd, kind);
        compare(kind, &data, &c);
    }
}
