//! C28: thermal files mean what their format says.
use crate::nd::Nd;
use thermal_parser::thermal_file::*;

const CONSTANTS: &[(&str, u8)] = &[("NUL", 0), ("ESC", 0x1b), ("HT", 9), ("LF", 10), ("FF", 12), ("CR", 13), ("GS", 0x1d), ("FS", 0x1c), ("DLE", 0x10), ("CAN", 0x18)];

/// The meaning of one word.
fn word(w: &str, out: &mut Vec<u8>) {
    if let Some(c) = CONSTANTS.iter().find(|c| c.0 == w) {
        return out.push(c.1);
    }
    if let Some(h) = w.strip_prefix("0x") {
        if !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()) {
            let v = h.bytes().fold(0u32, |v, b| (v * 16 + (b as char).to_digit(16).unwrap()).min(1000));
            if v <= 255 {
                out.push(v as u8);
            }
        }
        return;
    }
    if !w.is_empty() && w.bytes().all(|b| b.is_ascii_digit()) {
        let v = w.bytes().fold(0u32, |v, b| (v * 10 + (b - 48) as u32).min(1000));
        if v <= 255 {
            return out.push(v as u8);
        }
    }
    out.extend(w.bytes());
}
/// The bytes a text stands for.
fn meaning(text: &str) -> Vec<u8> {
    let mut out = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        // a line ends with LF or CR LF
        let (line, tail) = match rest.split_once('\n') {
            Some((l, t)) => (l.strip_suffix('\r').unwrap_or(l), t),
            None => (rest, ""),
        };
        rest = tail;
        if line.starts_with("'//") || line.trim().is_empty() {
            continue;
        }
        let mut it = line.chars().peekable();
        let mut w = String::new();
        while let Some(c) = it.next() {
            if c == '"' || matches!(c, ' ' | '\t' | '\r' | '\x0c') {
                if !w.is_empty() {
                    word(&w, &mut out);
                    w.clear();
                }
                if c == '"' {
                    let mut s = String::new();
                    while let Some(c) = it.next() {
                        match c {
                            '"' => break,
                            '\\' if it.peek() == Some(&'"') || it.peek() == Some(&'\\') => s.push(it.next().unwrap()),
                            c => s.push(c),
                        }
                    }
                    out.extend(s.bytes());
                }
            } else {
                w.push(c);
            }
        }
        if !w.is_empty() {
            word(&w, &mut out);
        }
    }
    out
}
fn check(text: &str) {
    let got = parse_str(text);
    let want = meaning(text);
    assert!(got == want, "{:?} stands for {:02x?} instead of {:02x?}", text, got, want);
}
fn piece(nd: &mut Nd) -> String {
    match nd.range(0, 13) {
        0 => CONSTANTS[nd.range(0, 9) as usize].0.to_string(),
        1 => nd.range(0, 300).to_string(),
        2 => { let v = nd.range(0, 300); if nd.bool() { format!("0x{:02X}", v) } else { format!("0x{:x}", v) } }
        3 => nd.pick(&["0x", "0xG1", "0X10", "0x1G", "00", "007", "256", "1a", "-1", "0x-1", "esc", "Lf", "NULL", "'//", "//", "0x000ff", "99999999999999999999"]).to_string(),
        4 => " ".repeat(nd.range(1, 3) as usize),
        5 => nd.pick(&["\t", "\u{b}", "\u{c}", "\u{a0}", "\u{2003}", "\r", "\u{85}"]).to_string(),
        6 => "\n".to_string(),
        7 => "\"".to_string(),
        8 => "\\".to_string(),
        9 => nd.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{301}", "\u{0}", "\u{7f}"]).to_string(),
        10 => {
            // a whole string
            let n = nd.range(0, 6) as usize;
            let mut s = String::from("\"");
            for _ in 0..n {
                s.push_str(nd.pick(&["a", " ", "\\\"", "\\\\", "\\", "\u{20ac}", "'//", "0x41", "65", "ESC", "\t", "{", "\\n"]));
            }
            s.push('"');
            s
        }
        11 => nd.pick(&["\n'// comment ESC \"x\"\n", " '// not a comment", "\n \n", "\r\n", "\n\n"]).to_string(),
        12 => ((32 + nd.range(0, 94) as u8) as char).to_string(),
        _ => nd.pick(&["abc", "x", "Hello", "\u{e9}t\u{e9}"]).to_string(),
    }
}

crate::contracts! {
    exec fn c28_text(nd) {
        let n = nd.range(0, 12);
        let mut t = String::new();
        for _ in 0..n {
            t.push_str(&piece(nd));
        }
        nd.assume(!t.contains('+'));
        check(&t);
    }
    exec fn c28_tokens(nd) {
        // well formed lines, token by token
        let n = nd.range(1, 6);
        let mut t = String::new();
        let mut want = vec![];
        for i in 0..n {
            let mut w = match nd.range(0, 4) {
                0 => { let c = CONSTANTS[nd.range(0, 9) as usize]; want.push(c.1); c.0.to_string() }
                1 => { let v = nd.u8(); want.push(v); v.to_string() }
                2 => { let v = nd.u8(); want.push(v); format!("0x{:02X}", v) }
                3 => {
                    let k = nd.range(0, 5);
                    let mut s = String::from("\"");
                    for _ in 0..k {
                        let c = nd.pick(&['a', ' ', '"', '\\', '\u{e9}', 'Z', '9', '\'', '/']);
                        want.extend(c.to_string().bytes());
                        if c == '"' || c == '\\' { s.push('\\'); }
                        s.push(c);
                    }
                    s + "\""
                }
                _ => { let s = nd.pick(&["abc", "a1", "x\\y", "256", "esc"]); want.extend(s.bytes()); s.to_string() }
            };
            if i > 0 && !(t.ends_with('"') && nd.bool()) {
                w.insert(0, nd.pick(&[' ', '\t', '\n']));
            }
            t.push_str(&w);
        }
        let got = parse_str(&t);
        assert!(got == want, "{:?} stands for {:02x?} instead of {:02x?}", t, got, want);
    }
    exec fn c28_any(nd) {
        let n = nd.range(0, 24) as usize;
        let b = nd.bytes(n);
        let t = String::from_utf8_lossy(&b).to_string();
        nd.assume(!t.contains('+'));
        check(&t);
        for line in t.lines() {
            parse_tokens(line);
        }
    }
}
