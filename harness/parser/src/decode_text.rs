//! C24: text decodes by the selected code table and character set, byte for byte.
use crate::nd::Nd;
use crate::snap::*;
#[cfg(not(kani))]
use crate::stream::any_command;
#[cfg(not(kani))]
use crate::tables::*;
use crate::util::*;
use thermal_parser::commands::*;
use thermal_parser::context::*;

#[cfg(not(kani))]
fn table(n: u8) -> &'static [&'static str; 128] {
    &TABLES.iter().find(|t| t.0 == n).unwrap_or(&TABLES[0]).1
}
#[cfg(not(kani))]
fn character(t: u8, s: u8, b: u8) -> &'static str {
    if b >= 128 {
        return table(t)[b as usize - 128];
    }
    let replaced = SETS.iter().find(|x| x.0 == s).and_then(|x| x.1.iter().rev().find(|r| r.0 == b));
    replaced.map_or(BASE[b as usize], |r| r.1)
}
#[cfg(not(kani))]
fn decoded(t: u8, s: u8, bytes: &[u8]) -> String {
    if t == 255 {
        return String::from_utf8_lossy(bytes).to_string();
    }
    bytes.iter().map(|b| character(t, s, *b)).collect()
}
#[cfg(not(kani))]
fn printed(c: &Context, bytes: &[u8]) -> String {
    let mut k = text::new();
    k.data = bytes.to_vec();
    k.handler.get_text(&k, c).expect("text is printed").text
}
fn select_table(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    apply(set_code_table::new(), &[n], c);
    want.text.code_table = n;
    let d = decoder_of(&want);
    want.text.decoder = d;
    assert!(snap(c) == want, "ESC t n: the decoder is rebuilt for the new table and the current set");
}
fn select_set(nd: &mut Nd, c: &mut Context, mut want: Snap) {
    let n = nd.u8();
    apply(set_international_charset::new(), &[n], c);
    want.text.character_set = n;
    let d = decoder_of(&want);
    want.text.decoder = d;
    assert!(snap(c) == want, "ESC R n: the decoder is rebuilt for the current table and the new set");
}

crate::contracts! {
    states 4 fn c24_selection { select_table, select_set }
    exec fn c24_every_character(nd) {
        // the whole finite domain: every table, every set, every byte
        let from = nd.range(0, 15) * 16;
        for t in (0..=255u8).map(|t| t.wrapping_add(from as u8)) {
            let mut c = Context::new();
            apply(set_code_table::new(), &[t], &mut c);
            for s in 0..=255u8 {
                c.text.character_set = s;
                c.update_decoder();
                if t == 255 {
                    continue;
                }
                let all: Vec<u8> = (0..=255).collect();
                let mut want = String::with_capacity(500);
                for b in &all {
                    want.push_str(character(t, s, *b));
                }
                assert!(printed(&c, &all) == want, "table {} set {}", t, s);
            }
        }
        for t in TABLES {
            let mut c = Context::new();
            apply(set_code_table::new(), &[t.0], &mut c);
            for b in 0..=255u8 {
                assert!(printed(&c, &[b]) == character(t.0, 0, b), "byte {:02x} of table {}", b, t.0);
            }
        }
    }
    exec fn c24_history(nd) {
        let mut c = Context::new();
        let (mut t, mut s) = (0u8, 0u8);
        let n = nd.range(1, 8);
        for _ in 0..n {
            match nd.range(0, 4) {
                0 => { t = any_table(nd); apply_stream(&[0x1b, b't', t], &mut c); }
                1 => { s = any_set(nd); apply_stream(&[0x1b, b'R', s], &mut c); }
                2 => {
                    let k = any_command(nd);
                    if k.starts_with(&[0x1b, b't']) || k.starts_with(&[0x1b, b'R']) || k.starts_with(&[0x1b, b'@']) {
                        continue;
                    }
                    apply_stream(&k, &mut c);
                }
                3 => { if nd.range(0, 7) == 0 { apply_stream(&[0x1b, b'@'], &mut c); t = 0; s = 0; } }
                _ => {}
            }
            let n = nd.range(0, 12) as usize;
            let mut b = nd.bytes(n);
            if t == 255 && nd.bool() {
                b = "a\u{df}\u{20ac}\u{1f600}z{}\"".as_bytes()[..nd.range(0, 14) as usize].to_vec();
            }
            assert!(printed(&c, &b) == decoded(t, s, &b), "table {} set {} bytes {:02x?}: {:?} instead of {:?}", t, s, b, printed(&c, &b), decoded(t, s, &b));
        }
    }
}
#[cfg(not(kani))]
fn any_table(nd: &mut Nd) -> u8 {
    if nd.bool() { nd.pick(&[0u8, 1, 2, 3, 4, 5, 11, 12, 13, 255, 254, 14, 6, 10]) } else { nd.u8() }
}
#[cfg(not(kani))]
fn any_set(nd: &mut Nd) -> u8 {
    if nd.bool() { nd.range(0, 18) as u8 } else if nd.bool() { nd.range(65, 83) as u8 } else { nd.u8() }
}
/// The decoder of the table and the set of a state.
fn decoder_of(s: &Snap) -> (usize, usize, bool) {
    let d = std::mem::ManuallyDrop::new(thermal_parser::decoder::get_codepage(s.text.code_table, s.text.character_set));
    let id = decoder_id(&d);
    (id.0, id.1, s.text.code_table == 255)
}
