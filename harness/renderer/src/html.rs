//! C30: html output.
use crate::known;
use crate::nd::Nd;
use crate::rec::*;
use crate::stream::*;

/// the tags of a document, and the text between them
fn tokens(doc: &str) -> (Vec<String>, Vec<String>) {
    let (mut tags, mut texts) = (vec![], vec![]);
    let mut text = String::new();
    let mut it = doc.chars().peekable();
    while let Some(c) = it.next() {
        if c != '<' {
            text.push(c);
            continue;
        }
        let mut tag = String::new();
        let mut quote = None;
        loop {
            match it.next() {
                None => break,
                Some('>') if quote.is_none() => break,
                Some(k) => {
                    match quote {
                        Some(q) if q == k => quote = None,
                        None if k == '"' || k == '\'' => quote = Some(k),
                        _ => {}
                    }
                    tag.push(k);
                }
            }
        }
        tags.push(tag);
        texts.push(std::mem::take(&mut text));
    }
    texts.push(text);
    (tags, texts)
}
fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(k) = rest.find('&') {
        out.push_str(&rest[..k]);
        rest = &rest[k..];
        let end = rest.find(';').expect("an ampersand starts a character reference");
        let name = &rest[1..end];
        let c = match name {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            n if n.starts_with("#x") => char::from_u32(u32::from_str_radix(&n[2..], 16).unwrap()).unwrap(),
            n if n.starts_with('#') => char::from_u32(n[1..].parse().unwrap()).unwrap(),
            n => panic!("character reference {:?}", n),
        };
        out.push(c);
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    out
}
/// the text of the spans of a document, in order
fn spans(doc: &str) -> Vec<String> {
    let (tags, texts) = tokens(doc);
    let mut v = vec![];
    for (i, t) in tags.iter().enumerate() {
        if t.starts_with("span") {
            assert!(tags.get(i + 1).map(|t| t.as_str()) == Some("/span"), "nothing but text in a span: {:?}", tags.get(i + 1));
            v.push(unescape(&texts[i + 1]));
        }
    }
    v
}
const PIECES: &[&str] = &[
    "<", ">", "&", "\"", "'", "</span>", "<script>", "<!--", "-->", "&lt;", "&amp;", "&#39;", "{{content}}", "{{color-0}}", "{{color-1}}", "{{receipt-style}}", "{{", "}}",
    " onload=x", "/>", "'>", "\">", "]]>", "&", ";", "a", "B", "9", " ", " ", "</p>", "<p style='", "\\", "`", "%3C", "&nbsp;", "{{color-2}}", "{{color-3}}",
];
fn hostile(nd: &mut Nd) -> String {
    let mut s = String::new();
    for _ in 0..nd.range(1, 12) {
        s.push_str(PIECES[nd.range(0, PIECES.len() as u32 - 1) as usize]);
    }
    s
}
/// does the job end (FF) or enter page mode in between, or ask for enormous pictures?
fn plain(j: &Job) -> bool {
    j.events.iter().all(|e| !e.at.page && e.at.y < 20000 && !matches!(e.what, What::PageBegin))
}

crate::contracts! {
    exec fn c30_text(nd) {
        let s = hostile(nd);
        let mut v = vec![];
        if nd.bool() {
            v.extend([0x1b, b'a', nd.range(0, 2) as u8]);
        }
        if nd.bool() {
            v.extend([0x1b, b'E', 1, 0x1d, b'!', nd.u8(), 0x1b, b'-', nd.range(0, 2) as u8]);
        }
        let utf8 = nd.bool();
        if utf8 {
            v.extend([0x1b, b't', 255]);
        }
        let (mut w, mut v) = (v.clone(), v);
        v.extend(s.bytes());
        w.extend(s.bytes().map(|b| if b == b' ' { b } else { b'x' }));
        let (a, b) = (html(&v), html(&w));
        assert!(a.len() == 1 && b.len() == 1);
        let got: String = spans(&a[0]).concat();
        assert!(got == s, "{:?} is shown as {:?}", s, got);
        let (ta, xa) = tokens(&a[0]);
        let (tb, xb) = tokens(&b[0]);
        assert!(ta == tb, "the tags do not depend on the text {:?}", s);
        // outside of the spans, too
        for i in 0..ta.len() {
            if !ta[i].starts_with("span") {
                assert!(xa[i + 1] == xb[i + 1], "text outside of the spans depends on {:?}: {:?}", s, xa[i + 1]);
            }
        }
        assert!(!xa[0].contains("{{") , "no placeholder is left in the template");
    }
    exec fn c30_once(nd) {
        // distinct words, in order
        let n = nd.range(1, 20);
        let mut v = vec![];
        for i in 0..n {
            v.extend(format!("w{}q", i).bytes());
            match nd.range(0, 5) {
                0 => v.push(0x0a),
                1 => v.extend([0x1b, b'J', nd.range(0, 50) as u8]),
                2 => v.extend([0x1b, b'E', nd.range(0, 1) as u8]),
                3 => v.extend([0x1b, b'a', nd.range(0, 2) as u8]),
                _ => v.push(b' '),
            }
        }
        let doc = html(&v).pop().unwrap();
        let all = spans(&doc).concat();
        let want: String = (0..n).map(|i| format!("w{}q", i)).collect();
        assert!(all.replace(' ', "") == want, "{:?} instead of {:?}", all, want);
        for i in 0..n {
            assert!(doc.matches(&format!("w{}q", i)).count() == 1, "each word appears once in the document");
        }
    }
    exec fn c30_streams(nd) {
        let mut v = vec![];
        for _ in 0..nd.range(1, 8) {
            if nd.bool() {
                let s = hostile(nd);
                v.extend(s.bytes());
            } else {
                v.extend(any_command(nd));
            }
        }
        nd.assume(!known::stream_hits(&v));
        let j = job(&v);
        nd.assume(plain(&j));
        let want: Vec<String> = j.events.iter().filter_map(|e| match &e.what {
            What::Text { spans, .. } => Some(spans.iter().map(|s| s.text.clone()).collect::<Vec<_>>()),
            _ => None,
        }).flatten().collect();
        let docs = html(&v);
        assert!(docs.len() == j.outputs, "{} documents instead of {}", docs.len(), j.outputs);
        let got = spans(docs.last().unwrap());
        assert!(got.concat() == want.concat(), "shown {:?} instead of {:?}", got, want);
    }
    exec fn c30_total(nd) {
        // any bytes give a document
        let n = nd.range(0, 50) as usize;
        let mut v = nd.bytes(n);
        if nd.bool() {
            v.extend(any_command(nd));
        }
        nd.assume(!known::stream_hits(&v));
        let j = job(&v);
        nd.assume(small(&j));
        let docs = html(&v);
        assert!(docs.len() == j.outputs && docs.iter().all(|d| d.contains("<")));
    }
}
/// pictures a test machine can hold
pub fn small(j: &Job) -> bool {
    j.events.iter().all(|e| e.at.paper_y < 6000 && e.at.y < 6000 && match &e.what {
        What::Area { w, h, .. } => *w < 1500 && *h < 1500,
        What::Image(i) => i.w < 3000 && i.h < 3000,
        _ => true,
    })
}
