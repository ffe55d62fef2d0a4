//! C22: text layout.
use crate::nd::Nd;
use crate::rec::*;
use thermal_parser::context::Font;
use thermal_parser::text::TextSpan;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Style {
    cw: u32,
    ch: u32,
    font: u8,
    bold: bool,
    underline: bool,
    upside_down: bool,
    italic: bool,
    inverted: bool,
    justify: u8,
}
fn style_of(s: &TextSpan) -> Style {
    Style {
        cw: s.character_width,
        ch: s.character_height,
        font: match s.font {
            Font::A => 0,
            Font::B => 1,
            _ => 2,
        },
        bold: s.bold,
        underline: s.underline > 0,
        upside_down: s.upside_down,
        italic: s.italic,
        inverted: s.inverted,
        justify: justify_no(&s.justify),
    }
}
/// a printed character: itself, its style and the number of its word
type Ch = (char, Style, usize);

struct Text {
    bytes: Vec<u8>,
    chars: Vec<Ch>,
}
fn any_text(nd: &mut Nd, long: bool) -> Text {
    let mut v = vec![];
    let mut chars = vec![];
    let (mut font, mut wm, mut hm) = (0u8, 1u32, 1u32);
    let mut s = Style { cw: 12, ch: 24, font: 0, bold: false, underline: false, upside_down: false, italic: false, inverted: false, justify: 0 };
    let utf8 = nd.range(0, 3) == 0;
    if utf8 {
        v.extend([0x1b, b't', 255]);
    }
    let page = nd.bool();
    if page {
        v.extend([0x1b, b'L']);
        let w = match nd.range(0, 5) {
            0 => nd.range(0, 12),
            1 => nd.range(0, 40),
            2 => nd.range(0, 20) * 12,
            _ => nd.range(0, 400),
        };
        let (x, y) = (nd.range(0, 99), nd.range(0, 99));
        let d = nd.range(0, 3) as u8;
        let (w, h) = if d % 2 == 0 { (w, 300) } else { (300, w) };
        v.extend([0x1b, b'W', x as u8, 0, y as u8, 0, (w % 256) as u8, (w / 256) as u8, (h % 256) as u8, (h / 256) as u8, 0x1b, b'T', d]);
    }
    if nd.range(0, 2) == 0 {
        let x = nd.range(0, 640);
        if !page {
            v.extend([0x1b, b'$', (x % 256) as u8, (x / 256) as u8]);
        }
    }
    let mut word = 0;
    for _ in 0..nd.range(1, 7) {
        let before = v.len();
        match nd.range(0, 12) {
            0 => {
                s.justify = nd.range(0, 2) as u8;
                v.extend([0x1b, b'a', s.justify]);
            }
            1 => {
                wm = nd.range(1, 8);
                hm = nd.range(1, 8);
                v.extend([0x1d, b'!', ((wm - 1) * 16 + hm - 1) as u8]);
            }
            2 => {
                s.bold = nd.bool();
                v.extend([0x1b, b'E', s.bold as u8]);
            }
            3 => {
                font = nd.range(0, 1) as u8;
                v.extend([0x1b, b'M', font]);
            }
            4 => {
                s.underline = nd.bool();
                v.extend([0x1b, b'-', s.underline as u8]);
            }
            5 => {
                s.upside_down = nd.bool();
                v.extend([0x1b, b'{', s.upside_down as u8]);
            }
            6 => {
                s.italic = nd.bool();
                v.extend([0x1b, b'4', s.italic as u8]);
            }
            7 => {
                v.push(0x0a);
            }
            8 => {
                v.extend([0x1b, b'3', nd.range(10, 60) as u8]);
            }
            _ => {}
        }
        s.font = font;
        let (w, h) = if font == 0 { (12, 24) } else { (9, 17) };
        s.cw = w * wm;
        s.ch = h * hm;
        // a run of text
        if v.len() != before {
            word += 1;
        }
        let n = if long { nd.range(1, 90) } else { nd.range(1, 12) };
        let spaces = nd.pick(&[3u32, 6, 12, 60]);
        for _ in 0..n {
            let c = if nd.range(0, spaces) == 0 {
                ' '
            } else if utf8 {
                nd.pick(&['a', 'b', 'Z', '9', '.', '\u{e9}', '\u{6f22}', '\u{1f600}', '-', '\u{df}', '\u{3000}'])
            } else {
                nd.range(33, 126) as u8 as char
            };
            let mut b = [0; 4];
            v.extend(c.encode_utf8(&mut b).bytes());
            chars.push((c, s, word));
            if c == ' ' || c == '\u{3000}' {
                word += 1;
            }
        }
    }
    Text { bytes: v, chars }
}
struct Line {
    spans: Vec<TextSpan>,
    offset: u32,
    height: u32,
    justify: u8,
    base: u32,
    width: u32,
}
fn lines(j: &Job) -> Vec<Line> {
    j.events.iter().filter_map(|e| match &e.what {
        What::Text { spans, offset, height, justify } => Some(Line { spans: spans.clone(), offset: *offset, height: *height, justify: *justify, base: e.at.base_x, width: e.at.width }),
        _ => None,
    }).collect()
}
fn check(t: &Text) {
    let j = job(&t.bytes);
    let lines = lines(&j);
    // every character once, in order, in its style
    let mut k = 0;
    let mut last_line = usize::MAX;
    let mut last_place = (0u32, 0u32);
    for (no, l) in lines.iter().enumerate() {
        let mut end = 0;
        let mut tall = 0;
        for s in &l.spans {
            let d = s.dimensions.as_ref().expect("printed text has a place");
            assert!(d.x >= l.base, "text starts left of the print area");
            let n = s.text.chars().count() as u32;
            assert!(d.w == n * s.character_width && d.h == s.character_height, "the box of the text is that of its characters");
            if n > 0 {
                assert!((d.y, d.x) >= last_place, "text goes on to the right or below: {:?} after {:?}", (d.y, d.x), last_place);
                last_place = (d.y, d.x + d.w);
                assert!(d.y == boxes(&l.spans).iter().find(|b| !b.0.is_empty()).unwrap().2, "a line of text has one height on the paper");
            }
            let x = d.x - l.base;
            if n > 1 {
                assert!(x + d.w <= l.width, "{:?} at {} of width {} extends beyond {}", s.text, x, d.w, l.width);
            }
            if n == 1 && s.character_width <= l.width {
                assert!(x + d.w <= l.width, "a character that fits the line is inside of it");
            }
            end = end.max(x + d.w);
            tall = tall.max(s.character_height);
            for c in s.text.chars() {
                assert!(k < t.chars.len(), "more characters than were sent: {:?}", s.text);
                let (want, style, word) = t.chars[k];
                assert!(c == want, "character {} is {:?} instead of {:?}", k, c, want);
                assert!(style_of(s) == style, "character {} has the style {:?} instead of {:?}", k, style_of(s), style);
                // a break within a word
                if k > 0 && t.chars[k - 1].2 == word && last_line != no {
                    let len = t.chars.iter().filter(|c| c.2 == word).count() as u32;
                    assert!(len * style.cw > l.width, "a word of {} characters of {} is broken although {} is enough", len, style.cw, l.width);
                }
                last_line = no;
                k += 1;
            }
        }
        if l.spans.is_empty() {
            continue;
        }
        assert!(l.height == tall, "line height {} instead of {}", l.height, tall);
        let rest = l.width.saturating_sub(end);
        let want = match l.justify {
            0 => 0,
            1 => rest / 2,
            _ => rest,
        };
        assert!(l.justify == justify_no(&l.spans[0].justify), "the justification of the line is that of its text");
        assert!(l.offset == want, "justification {} of a line that ends at {} of {}: offset {} instead of {}", l.justify, end, l.width, l.offset, want);
    }
    assert!(k == t.chars.len(), "{} characters printed of {}", k, t.chars.len());
}

crate::contracts! {
    exec fn c22_job_layout(nd) {
        let t = any_text(nd, false);
        check(&t);
    }
    exec fn c22_job_long(nd) {
        let t = any_text(nd, true);
        check(&t);
    }
    exec fn c22_words(nd) {
        // the pieces of a span are the span
        let n = nd.range(0, 30);
        let mut s = String::new();
        for _ in 0..n {
            s.push(nd.pick(&['a', 'b', ' ', '\n', '\t', '\r', '\u{3000}', '\u{6f22}', '<']));
        }
        let c = thermal_parser::context::Context::new();
        let t = TextSpan::new(s.clone(), &c);
        let words = t.break_into_words();
        let all: String = words.iter().map(|w| w.text.clone()).collect();
        assert!(all == s, "{:?} in words is {:?}", s, all);
        for w in &words {
            let inner: Vec<char> = w.text.chars().collect();
            assert!(!inner.is_empty(), "no empty words");
            assert!(inner[..inner.len() - 1].iter().all(|c| !c.is_whitespace()), "white space only ends a word: {:?}", w.text);
        }
        let (first, rest) = (nd.range(0, 9) as usize, nd.range(1, 9) as usize);
        let parts = t.break_apart(first, rest);
        let all: String = parts.iter().map(|w| w.text.clone()).collect();
        assert!(all == s, "{:?} in parts is {:?}", s, all);
        for (i, p) in parts.iter().enumerate() {
            assert!(p.text.chars().count() <= if i == 0 { first } else { rest }, "part {} of {:?} is too long", i, parts);
        }
    }
}
