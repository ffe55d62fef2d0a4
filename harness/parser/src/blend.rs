//! C16: blending follows the alpha and is exact at its ends.
use crate::nd::Nd;
use thermal_parser::graphics::RGBA;

fn any(nd: &mut Nd) -> RGBA {
    RGBA { r: nd.u8(), g: nd.u8(), b: nd.u8(), a: nd.u8() }
}
fn between(x: u8, a: u8, b: u8) -> bool {
    if a <= b { a <= x && x <= b } else { b <= x && x <= a }
}
fn blend(p: RGBA, c: RGBA, alpha: u8) {
    let mut q = p;
    q.blend_foreground_with_alpha(&c, &alpha);
    if alpha == 0 {
        assert!(q == p, "alpha 0 changes nothing");
    }
    if alpha == 255 {
        assert!(q.r == c.r && q.g == c.g && q.b == c.b && q.a == 255, "alpha 255 yields the colour");
    }
    assert!(between(q.r, p.r, c.r) && between(q.g, p.g, c.g) && between(q.b, p.b, c.b), "every channel lies between the two colours: {:?} on {:?} with {} is {:?}", c, p, alpha, q);
    let mut s = p;
    s.blend_foreground(&RGBA { r: c.r, g: c.g, b: c.b, a: alpha });
    assert!(s == q, "a colour is blended with its own alpha");
}
fn multiply(p: RGBA, c: RGBA) {
    let mut q = p;
    q.multiply_foreground(&c);
    assert!(q.r <= p.r && q.g <= p.g && q.b <= p.b && q.a == p.a, "multiplying never brightens: {:?} by {:?} is {:?}", p, c, q);
    if p.r == 0 { assert!(q.r == 0, "black stays black"); }
    if p.g == 0 { assert!(q.g == 0, "black stays black"); }
    if p.b == 0 { assert!(q.b == 0, "black stays black"); }
    if c.r == 255 && c.g == 255 && c.b == 255 && c.a == 255 {
        assert!(q == p, "opaque white changes nothing");
    }
    if c.a == 0 {
        assert!(q == p, "a transparent colour changes nothing");
    }
}

crate::contracts! {
    full 2 fn c16_blend_ends(nd) {
        let p = any(nd);
        let c = any(nd);
        blend(p, c, 0);
        blend(p, c, 255);
    }
    full 2 fn c16_multiply_ends(nd) {
        let p = any(nd);
        let c = any(nd);
        multiply(p, RGBA { r: 255, g: 255, b: 255, a: 255 });
        multiply(p, RGBA { r: c.r, g: c.g, b: c.b, a: 0 });
        multiply(RGBA { r: 0, g: 0, b: 0, a: p.a }, c);
    }
    full 2 fn c16_darkens(nd) {
        let (x, y, a) = (nd.u8(), nd.u8(), nd.u8());
        multiply(RGBA { r: x, g: 0, b: 0, a: 255 }, RGBA { r: y, g: 0, b: 0, a });
    }
    exec fn c16_between(nd) {
        // every value of every channel: the complete domain, in one evaluation
        let first = nd.u8();
        for k in 0..=255u8 {
            let c = first.wrapping_add(k);
            for b in 0..=255u8 {
                for a in 0..=255u8 {
                    let mut q = RGBA { r: b, g: b, b, a: b };
                    q.blend_foreground_with_alpha(&RGBA { r: c, g: c, b: c, a: b }, &a);
                    let ok = between(q.r, b, c) && between(q.g, b, c) && between(q.b, b, c);
                    if !ok || (a == 0 && (q.r != b || q.a != b)) || (a == 255 && (q.r != c || q.a != 255)) {
                        blend(RGBA { r: b, g: b, b, a: b }, RGBA { r: c, g: c, b: c, a: b }, a);
                    }
                }
            }
        }
    }
    exec fn c16_blend(nd) {
        // all backgrounds and alphas at once, for one colour channel each
        let c = nd.u8();
        let d = nd.u8();
        for b in 0..=255u8 {
            for a in 0..=255u8 {
                blend(RGBA { r: b, g: d, b: c, a: d }, RGBA { r: c, g: b, b: d, a: b }, a);
            }
        }
    }
    exec fn c16_multiply(nd) {
        let c = nd.u8();
        let d = nd.u8();
        for b in 0..=255u8 {
            for a in 0..=255u8 {
                multiply(RGBA { r: b, g: d, b: c, a: d }, RGBA { r: c, g: b, b: d, a });
            }
        }
        multiply(RGBA { r: c, g: d, b: d, a: d }, RGBA { r: 255, g: 255, b: 255, a: 255 });
    }
}
