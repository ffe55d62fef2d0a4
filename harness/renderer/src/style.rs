//! C05: the style that the renderer gives to text is the one the commands set.
use crate::nd::Nd;
use crate::rec::*;
use thermal_parser::context::*;

crate::contracts! {
    exec fn c05_job_style(nd) {
        let mut v = vec![];
        for _ in 0..nd.range(0, 8) {
            match nd.range(0, 14) {
                0 => v.extend([0x1b, b'!', nd.u8()]),
                1 => v.extend([0x1d, b'!', nd.u8()]),
                2 => v.extend([0x1b, b'E', nd.u8()]),
                3 => v.extend([0x1b, b'G', nd.u8()]),
                4 => v.extend([0x1b, b'-', nd.u8()]),
                5 => v.extend([0x1b, b'{', nd.u8()]),
                6 => v.extend([0x1b, b'4', nd.u8()]),
                7 => v.extend([0x1d, b'B', nd.u8()]),
                8 => v.extend([0x1b, b'M', nd.u8()]),
                9 => v.extend([0x1b, b'a', nd.u8()]),
                10 => v.extend([0x1b, b'r', nd.u8()]),
                11 => v.extend([0x1d, b'(', b'N', 2, 0, 48, 49 + nd.range(0, 2) as u8]),
                12 => v.extend([0x1d, b'(', b'N', 2, 0, 49, 48 + nd.range(0, 3) as u8]),
                13 => v.extend([b'z']),
                _ => v.extend([0x1b, b'3', nd.u8()]),
            }
        }
        let a = job(&v);
        // the style of text sent now
        let c = a.end.as_ref().unwrap();
        v.push(b'x');
        let b = job(&v);
        let span = b.events.iter().rev().find_map(|e| match &e.what {
            What::Text { spans, .. } => spans.last().cloned(),
            _ => None,
        }).expect("text is printed");
        let t = &c.text;
        assert!(span.text.ends_with('x'));
        assert!(span.bold == t.bold && span.italic == t.italic && span.inverted == t.invert && span.upside_down == t.upside_down, "attributes");
        assert!(span.font == t.font, "font");
        assert!(span.base_character_width == t.character_width as u32 && span.base_character_height == t.character_height as u32, "size of the font");
        assert!(span.character_width == t.character_width as u32 * t.width_mult as u32, "width {} instead of {} x {}", span.character_width, t.character_width, t.width_mult);
        assert!(span.character_height == t.character_height as u32 * t.height_mult as u32, "height");
        assert!(span.stretch_width == t.width_mult as f32 && span.stretch_height == t.height_mult as f32, "stretch");
        assert!((span.underline > 0) == (t.underline != TextUnderline::Off), "underline");
        assert!((span.strikethrough > 0) == (t.strikethrough != TextStrikethrough::Off), "strikethrough");
        assert!(span.justify == t.justify, "justification");
        assert!(span.text_color == t.color && span.background_color == t.background_color, "colours");
    }
    exec fn c05_job_execution(nd) {
        // sizes and justification are device commands: they are executed, last one first served
        let mut v = vec![];
        let (mut w, mut h, mut j) = (1u8, 1u8, 0u8);
        for _ in 0..nd.range(1, 6) {
            match nd.range(0, 2) {
                0 => {
                    let n = nd.range(0, 7) as u8;
                    let m = nd.range(0, 7) as u8;
                    v.extend([0x1d, b'!', n * 16 + m]);
                    w = n + 1;
                    h = m + 1;
                }
                1 => {
                    j = nd.range(0, 2) as u8;
                    v.extend([0x1b, b'a', if nd.bool() { j } else { j + 48 }]);
                }
                _ => v.extend([0x1b, b'E', nd.u8()]),
            }
        }
        v.push(b'x');
        let b = job(&v);
        let (spans, justify) = b.events.iter().rev().find_map(|e| match &e.what {
            What::Text { spans, justify, .. } => Some((spans.clone(), *justify)),
            _ => None,
        }).expect("text is printed");
        assert!(spans[0].character_width == 12 * w as u32 && spans[0].character_height == 24 * h as u32, "size {} x {} instead of {} x {} times 12 x 24", spans[0].character_width, spans[0].character_height, w, h);
        assert!(justify == j, "justification {} instead of {}", justify, j);
    }
}
