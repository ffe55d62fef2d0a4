//@include grid.inc
//@include bits.inc
//@include std.inc
//@meta assume Verus: assumed contract on std: slice::to_vec copies
//@meta contract c12_executed c13_executed c14_executed
//@meta assume Verus: widths and heights are at most 2^32 - 16 and stretched sizes fit 32 bits (every caller builds them from 16 bit numbers)
//@meta assume Verus: memory allocation succeeds
//@meta rlimit 60
verus! {
//@use thermal_parser/src/graphics.rs

//@fn unpack_bytes
//@bits
//@ret r
//@spec
    requires width <= 0xffff_fff0, pixels.len() <= 0x0fff_ffff_ffff_ffff
    ensures
        width == 0 ==> r.len() == 8 * pixels.len(),
        width > 0 ==> r.len() == rows(pixels.len() as int, width as int) * width + (pixels.len() as int % bpr(width as int)) * 8,
        forall |x: int, y: int| 0 <= x < width && 0 <= y < rows(pixels.len() as int, width as int) ==>
            r[#[trigger] ix(x, y, width as int)] == bit_at(pixels@, width as int, x, y),
//@at before 1
    let ghost mut row: int = 0;
    let ghost w = width as int;
    proof { reveal(ix); }
//@loop 1 it=it for byte in pixels
        invariant
            w == width, width <= 0xffff_fff0,
            padding == (if width % 8 == 0 { 8int } else { (width % 8) as int }),
            it.seq().len() == pixels.len(),
            forall |i: int| 0 <= i < pixels.len() ==> *it.seq()[i] == pixels[i],
            width == 0 ==> bytes.len() == 8 * it.index() && col == 0,
            width > 0 ==> col < width && col % 8 == 0 && row >= 0
                && it.index() == ix(col as int / 8, row, bpr(w)) && bytes.len() == ix(col as int, row, w),
            forall |x: int, y: int| 0 <= x < width && 0 <= y < row ==>
                bytes[#[trigger] ix(x, y, w)] == bit_at(pixels@, w, x, y),
            forall |x: int| 0 <= x < col ==> bytes[#[trigger] ix(x, row, w)] == bit_at(pixels@, w, x, row),
//@at begin 1
        let ghost j = it.index();
        let ghost b0 = bytes@;
        let ghost c0 = col as int;
        proof { assert(*byte == pixels[j]); }
//@loop 2 for n in 0..padding
            invariant bytes.len() == b0.len() + n, 1 <= padding <= 8,
                forall |k: int| 0 <= k < b0.len() ==> bytes[k] == b0[k],
                forall |k: int| 0 <= k < n ==> bytes[b0.len() + k] == bit_val(*byte, k),
//@at end 1
        proof {
            if w > 0 {
                reveal(ix);
                let n = bytes.len() - b0.len();
                assert(forall |k: int| 0 <= k < n ==> #[trigger] bytes[b0.len() + k] == bit_val(*byte, k));
                lemma_ix(w, row + 2);
                lemma_ix(bpr(w), row + 2);
                assert forall |x: int| 0 <= x < c0 + n implies bytes[#[trigger] ix(x, row, w)] == bit_at(pixels@, w, x, row) by {
                    if x < c0 {
                        assert(bytes[ix(x, row, w)] == b0[ix(x, row, w)]);
                    } else {
                        let k = x - c0;
                        assert(x / 8 == c0 / 8 && x % 8 == k);
                        assert(ix(x, row, w) == b0.len() + k);
                    }
                }
                assert forall |x: int, y: int| 0 <= x < width && 0 <= y < row implies
                    bytes[#[trigger] ix(x, y, w)] == bit_at(pixels@, w, x, y) by {
                    assert(ix(x, y, w) < w * row) by { lemma_ix(w, row); }
                    assert(w * row == row * w) by (nonlinear_arith);
                    assert(bytes[ix(x, y, w)] == b0[ix(x, y, w)]);
                }
                if col == 0 {
                    assert(c0 + n == w);
                    assert(c0 / 8 + 1 == bpr(w));
                    assert((row + 1) * w == row * w + w) by (nonlinear_arith);
                    assert((row + 1) * bpr(w) == row * bpr(w) + bpr(w)) by (nonlinear_arith);
                    row = row + 1;
                }
            }
        }
//@at after 1
    proof {
        if w > 0 {
            reveal(ix);
            let b = bpr(w);
            lemma_fundamental_div_mod_converse(pixels.len() as int, b, row, col as int / 8);
        }
    }
//@end

//@fn rotate_90_clockwise
//@ret r
//@spec
    requires data.len() == width * height
    ensures r.len() == data.len(),
        forall |x: int, y: int| 0 <= x < height && 0 <= y < width ==>
            r[#[trigger] ix(x, y, height as int)] == data[ix(y, height - 1 - x, width as int)],
//@loop 1 for y in 0..height
        invariant data.len() == width * height, result.len() == data.len(),
            forall |x2: int, y2: int| height - y <= x2 < height && 0 <= y2 < width ==>
                result[#[trigger] ix(x2, y2, height as int)] == data[ix(y2, height - 1 - x2, width as int)],
//@loop 2 for x in 0..width
            invariant data.len() == width * height, result.len() == data.len(), 0 <= y < height,
                forall |x2: int, y2: int| height - y <= x2 < height && 0 <= y2 < width ==>
                    result[#[trigger] ix(x2, y2, height as int)] == data[ix(y2, height - 1 - x2, width as int)],
                forall |y2: int| 0 <= y2 < x ==>
                    result[#[trigger] ix(height - 1 - y, y2, height as int)] == data[ix(y2, y as int, width as int)],
//@at begin 2
            proof {
                lemma_ix(height as int, width as int);
                lemma_machine(x as int, y as int, width as int, height as int);
                lemma_machine(height - 1 - y, x as int, height as int, width as int);
                assert(height * width == width * height) by (nonlinear_arith);
            }
//@end

//@fn flip_right_to_left
//@ret r
//@spec
    requires data.len() == width * height
    ensures r.len() == data.len(),
        forall |x: int, y: int| 0 <= x < width && 0 <= y < height ==>
            r[#[trigger] ix(x, y, width as int)] == data[ix(width - 1 - x, y, width as int)],
//@loop 1 for y in 0..height
        invariant data.len() == width * height, result.len() == data.len(),
            forall |x2: int, y2: int| 0 <= x2 < width && 0 <= y2 < y ==>
                result[#[trigger] ix(x2, y2, width as int)] == data[ix(width - 1 - x2, y2, width as int)],
//@loop 2 for x in 0..width
            invariant data.len() == width * height, result.len() == data.len(), 0 <= y < height,
                forall |x2: int, y2: int| 0 <= x2 < width && 0 <= y2 < y ==>
                    result[#[trigger] ix(x2, y2, width as int)] == data[ix(width - 1 - x2, y2, width as int)],
                forall |x2: int| width - x <= x2 < width ==>
                    result[#[trigger] ix(x2, y as int, width as int)] == data[ix(width - 1 - x2, y as int, width as int)],
//@at begin 2
            proof {
                lemma_ix(width as int, height as int);
                lemma_machine(x as int, y as int, width as int, height as int);
                lemma_machine(width - 1 - x, y as int, width as int, height as int);
            }
//@end

//@fn column_to_bytes
//@ret r
//@spec
    requires width <= 0xffff_fff0, height <= 0xffff_fff0, pixels.len() == bpr(height as int) * width,
        pixels.len() <= 0x0fff_ffff_ffff_ffff
    ensures r.len() == width * height,
        forall |x: int, y: int| 0 <= x < width && 0 <= y < height ==>
            r[#[trigger] ix(x, y, width as int)] == bit_at(pixels@, height as int, y, x),
//@at begin
    proof {
        lemma_rows(height as int, width as int);
        assert(height * width == width * height) by (nonlinear_arith);
    }
//@end

//@fn scale_pixels
//@ret r
//@spec
    requires bytes.len() == original_width * original_height,
        original_width * factor(scale_x) <= u32::MAX, original_height * factor(scale_y) <= u32::MAX,
    ensures r.0 == original_width * factor(scale_x), r.1 == original_height * factor(scale_y),
        r.2.len() == r.0 * r.1,
        forall |x: int, y: int| 0 <= x < r.0 && 0 <= y < r.1 ==>
            r.2[#[trigger] ix(x, y, r.0 as int)] == bytes[ix(dv(x, factor(scale_x)), dv(y, factor(scale_y)), original_width as int)],
//@at begin
    proof { lemma_area(original_width * factor(scale_x), original_height * factor(scale_y)); }
//@at before 1
    let ghost a = scale_x as int;
    let ghost b = scale_y as int;
    let ghost w = original_width as int;
    let ghost nw = new_width as int;
    let ghost nh = new_height as int;
//@loop 1 for y in 0..original_height
        invariant a == scale_x, b == scale_y, w == original_width, nw == new_width, nh == new_height, a >= 1, b >= 1,
            nw == w * a, nh == original_height * b, bytes.len() == original_width * original_height,
            scaled_bytes.len() == nw * nh,
            forall |x2: int, y2: int| 0 <= x2 < nw && 0 <= y2 < nh && dv(y2, b) < y ==>
                scaled_bytes[#[trigger] ix(x2, y2, nw)] == bytes[ix(dv(x2, a), dv(y2, b), w)],
//@loop 2 for x in 0..original_width
            invariant a == scale_x, b == scale_y, w == original_width, nw == new_width, nh == new_height, a >= 1, b >= 1,
                nw == w * a, nh == original_height * b, bytes.len() == original_width * original_height,
                scaled_bytes.len() == nw * nh, y < original_height,
                forall |x2: int, y2: int| 0 <= x2 < nw && 0 <= y2 < nh && (dv(y2, b) < y || dv(y2, b) == y && dv(x2, a) < x) ==>
                    scaled_bytes[#[trigger] ix(x2, y2, nw)] == bytes[ix(dv(x2, a), dv(y2, b), w)],
//@at begin 1
        proof { assert(0 <= y * b && y * b <= original_height * b) by (nonlinear_arith) requires 0 <= y < original_height, b >= 1; }
//@at begin 2
            proof {
                lemma_machine(x as int, y as int, w, original_height as int);
                assert(0 <= y * b && y * b <= original_height * b) by (nonlinear_arith) requires 0 <= y < original_height, b >= 1;
                assert(0 <= x * a && x * a <= w * a) by (nonlinear_arith) requires 0 <= x < w, a >= 1;
            }
//@at begin 3
                proof {
                    assert(0 <= x * a && x * a < w * a) by (nonlinear_arith) requires 0 <= x < w, a >= 1;
                    assert(0 <= y * b && y * b + dy < original_height * b) by (nonlinear_arith) requires 0 <= y < original_height, 0 <= dy < b;
                    lemma_machine(x * a, y * b + dy, nw, nh);
                }
//@loop 3 for dy in 0..scale_y
                invariant a == scale_x, b == scale_y, w == original_width, nw == new_width, nh == new_height, a >= 1, b >= 1,
                    nw == w * a, nh == original_height * b, bytes.len() == original_width * original_height,
                    scaled_bytes.len() == nw * nh, y < original_height, x < original_width,
                    pixel == bytes[ix(x as int, y as int, w)],
                    forall |x2: int, y2: int| 0 <= x2 < nw && 0 <= y2 < nh && (dv(y2, b) < y || dv(y2, b) == y && dv(x2, a) < x
                            || dv(y2, b) == y && dv(x2, a) == x && md(y2, b) < dy) ==>
                        scaled_bytes[#[trigger] ix(x2, y2, nw)] == bytes[ix(dv(x2, a), dv(y2, b), w)],
//@loop 4 for dx in 0..scale_x
                    invariant a == scale_x, b == scale_y, w == original_width, nw == new_width, nh == new_height, a >= 1, b >= 1,
                        nw == w * a, nh == original_height * b, bytes.len() == original_width * original_height,
                        scaled_bytes.len() == nw * nh, y < original_height, x < original_width, dy < scale_y,
                        pixel == bytes[ix(x as int, y as int, w)],
                        forall |x2: int, y2: int| 0 <= x2 < nw && 0 <= y2 < nh && (dv(y2, b) < y || dv(y2, b) == y && dv(x2, a) < x
                                || dv(y2, b) == y && dv(x2, a) == x && md(y2, b) < dy
                                || dv(y2, b) == y && dv(x2, a) == x && md(y2, b) == dy && md(x2, a) < dx) ==>
                            scaled_bytes[#[trigger] ix(x2, y2, nw)] == bytes[ix(dv(x2, a), dv(y2, b), w)],
//@at begin 4
                    proof {
                        let nx = x * a + dx;
                        let ny = y * b + dy;
                        assert(0 <= x * a && nx < w * a) by (nonlinear_arith) requires 0 <= x < w, 0 <= dx < a, nx == x * a + dx;
                        assert(0 <= y * b && ny < original_height * b) by (nonlinear_arith) requires 0 <= y < original_height, 0 <= dy < b, ny == y * b + dy;
                        lemma_machine(nx, ny, nw, nh);
                        lemma_ix(nw, nh);
                        lemma_dv(nx, a, x as int, dx as int);
                        lemma_dv(ny, b, y as int, dy as int);
                        assert forall |x2: int| #[trigger] dv(x2, a) == x && md(x2, a) == dx implies x2 == nx by { lemma_dv_unique(x2, nx, a); }
                        assert forall |y2: int| #[trigger] dv(y2, b) == y && md(y2, b) == dy implies y2 == ny by { lemma_dv_unique(y2, ny, b); }
                    }
//@at end 4
                    assert(scaled_bytes[ix(x * a + dx, y * b + dy, nw)] == pixel);
//@at end 3
                proof { assert forall |x2: int| 0 <= #[trigger] md(x2, a) < a by { lemma_dv_range(x2, a); } }
//@at end 2
            proof { assert forall |y2: int| 0 <= #[trigger] md(y2, b) < b by { lemma_dv_range(y2, b); } }
//@at end 1
        proof { assert forall |x2: int| 0 <= x2 < nw implies #[trigger] dv(x2, a) < w by {
            assert(x2 / a < w) by (nonlinear_arith) requires 0 <= x2 < w * a, a >= 1; } }
//@at after 1
    proof { assert forall |y2: int| 0 <= y2 < nh implies #[trigger] dv(y2, b) < original_height by {
        assert(y2 / b < original_height) by (nonlinear_arith) requires 0 <= y2 < original_height * b, b >= 1; } }
//@end

pub open spec fn dv(x: int, a: int) -> int { x / a }
pub open spec fn md(x: int, a: int) -> int { x % a }
proof fn lemma_dv(x: int, a: int, q: int, r: int)
    requires a >= 1, 0 <= r < a, x == q * a + r
    ensures dv(x, a) == q, md(x, a) == r
{ lemma_fundamental_div_mod_converse(x, a, q, r); }
proof fn lemma_dv_range(x: int, a: int)
    requires a >= 1
    ensures 0 <= md(x, a) < a
{ lemma_mod_bound(x, a); }
proof fn lemma_dv_unique(x: int, y: int, a: int)
    requires a >= 1, dv(x, a) == dv(y, a), md(x, a) == md(y, a)
    ensures x == y
{ lemma_fundamental_div_mod(x, a); lemma_fundamental_div_mod(y, a); }

//@use thermal_parser/src/graphics.rs
//@item struct RGBA
//@item struct Barcode
//@item struct Rectangle
//@item struct Line
//@item struct Code2D
//@item enum ImageFlow
//@item struct Image
//@item enum GraphicsCommand
// the payload of barcodes plays no role here
#[verifier::external_body]
pub struct HumanReadableInterface { x: u8 }
#[verifier::external_body]
pub struct TextSpan { x: u8 }

/// the text of an error is not specified
#[verifier::external_body]
fn verif_message() -> String { String::new() }

pub open spec fn tinted(c: RGBA, a: u8) -> RGBA { RGBA { r: c.r, g: c.g, b: c.b, a: a } }

/// im shows src, an opacity for every pixel of a w by h picture, in one colour, stretched
pub open spec fn shows(im: Image, w: int, h: int, stretch: (u8, u8), color: RGBA, src: spec_fn(int, int) -> u8) -> bool {
    let a = factor(stretch.0);
    let b = factor(stretch.1);
    im.w == w * a && im.h == h * b && im.pixels.len() == im.w * im.h && im.x == 0 && im.y == 0 && !im.upside_down
    && forall |x: int, y: int| 0 <= x < im.w && 0 <= y < im.h ==>
        im.pixels[#[trigger] ix(x, y, im.w as int)] == tinted(color, src(dv(x, a), dv(y, b)))
}

impl RGBA {
//@fn RGBA::with_alpha
//@ret r
//@spec
    ensures r == tinted(self, a)
//@end
}

impl GraphicsCommand {
//@fn GraphicsCommand::image_from_raster_bytes_single_color
//@closures 2
//@ret r
//@sub format!(...) => verif_message()
//@spec
    requires width <= 0xffff_fff0, height <= 0xffff_fff0, process_as_bits ==> data.len() <= 0x0fff_ffff_ffff_ffff,
        width * factor(stretch.0) <= u32::MAX, height * factor(stretch.1) <= u32::MAX,
    ensures
        ({
            let need = if process_as_bits { bpr(width as int) * height } else { width * height };
            let src = if process_as_bits { |x: int, y: int| bit_at(data@, width as int, x, y) }
                else { |x: int, y: int| data[ix(x, y, width as int)] };
            match r {
                GraphicsCommand::Image(im) => data.len() == need && im.flow == flow
                    && shows(im, width as int, height as int, stretch, *color, src),
                GraphicsCommand::Error(_) => data.len() != need,
                _ => false,
            }
        }),
//@at begin
    proof {
        lemma_unit(width as int, factor(stretch.0));
        lemma_unit(height as int, factor(stretch.1));
        lemma_rows(width as int, height as int);
        lemma_bits_len(data.len() as int, width as int, height as int);
        lemma_area(width as int, height as int);
        lemma_area(width * factor(stretch.0), height * factor(stretch.1));
        lemma_ix(width as int, height as int);
        if width > 0 { assert(data.len() as int / bpr(width as int) == height || data.len() != bpr(width as int) * height); }
    }
//@at before 1
    let ghost raw = raw_pixels@;
    proof {
        lemma_ix(w as int, h as int);
        assert(w == width * factor(stretch.0) && h == height * factor(stretch.1));
        assert(raw.len() == w * h);
        assert forall |x: int, y: int| 0 <= x < w && 0 <= y < h implies
            raw[#[trigger] ix(x, y, w as int)] == (if process_as_bits { bit_at(data@, width as int, dv(x, factor(stretch.0)), dv(y, factor(stretch.1))) }
                else { data[ix(dv(x, factor(stretch.0)), dv(y, factor(stretch.1)), width as int)] }) by {
            lemma_inside(x, width as int, factor(stretch.0));
            lemma_inside(y, height as int, factor(stretch.1));
        }
    }
//@loop 1 for i in 0..raw_pixels.len()
        invariant raw_pixels@ == raw, pixels.len() == i,
            forall |k: int| 0 <= k < i ==> pixels[k] == tinted(*color, raw[k]),
//@end

//@fn GraphicsCommand::image_from_column_bytes_single_color
//@closures 1
//@ret r
//@sub format!(...) => verif_message()
//@spec
    requires width <= 0xffff_fff0, height <= 0xffff_fff0, data.len() <= 0x0fff_ffff_ffff_ffff,
        width * factor(stretch.0) <= u32::MAX, height * factor(stretch.1) <= u32::MAX,
    ensures
        ({
            let need = bpr(height as int) * width;
            match r {
                GraphicsCommand::Image(im) => data.len() == need && im.flow == flow
                    && shows(im, width as int, height as int, stretch, *color, |x: int, y: int| bit_at(data@, height as int, y, x)),
                GraphicsCommand::Error(_) => data.len() != need,
                _ => false,
            }
        }),
//@at begin
    proof {
        lemma_area(bpr(height as int), width as int);
        lemma_area(width as int, height as int);
        lemma_ix(width as int, height as int);
        assert forall |x: int, y: int| #![trigger dv(x, factor(stretch.0)), dv(y, factor(stretch.1))]
            0 <= x < width * factor(stretch.0) && 0 <= y < height * factor(stretch.1) implies
            0 <= dv(x, factor(stretch.0)) < width && 0 <= dv(y, factor(stretch.1)) < height by {
            lemma_inside(x, width as int, factor(stretch.0));
            lemma_inside(y, height as int, factor(stretch.1));
        }
    }
//@end
}

proof fn lemma_unit(w: int, a: int)
    ensures a == 1 ==> w * a == w
{
    if a == 1 { assert(w * a == w) by (nonlinear_arith) requires a == 1; }
}

proof fn lemma_inside(x: int, w: int, a: int)
    requires 0 <= x < w * a, a >= 1
    ensures 0 <= dv(x, a) < w, a == 1 ==> dv(x, a) == x
{
    assert(0 <= x / a < w) by (nonlinear_arith) requires 0 <= x < w * a, a >= 1;
}

/// n bytes unpack to w * h pixels exactly if they are h rows
proof fn lemma_bits_len(n: int, w: int, h: int)
    requires n >= 0, 0 <= w, 0 <= h
    ensures
        w > 0 ==> (rows(n, w) * w + (n % bpr(w)) * 8 == w * h <==> n == bpr(w) * h),
        w == 0 ==> (8 * n == w * h <==> n == bpr(w) * h),
{
    if w > 0 {
        let b = bpr(w);
        lemma_fundamental_div_mod(n, b);
        let q = n / b;
        let m = n % b;
        lemma_mod_bound(n, b);
        assert(m * 8 < w) by { assert(m <= b - 1); }
        if q * w + m * 8 == w * h {
            lemma_fundamental_div_mod_converse(w * h, w, q, m * 8);
            assert(h * w + 0 == w * h) by (nonlinear_arith);
            lemma_fundamental_div_mod_converse(w * h, w, h, 0);
            assert(q == h && m * 8 == 0);
            assert(m == 0);
            assert(n == b * h) by (nonlinear_arith) requires n == b * q + m, m == 0, q == h;
        }
        if n == b * h {
            lemma_fundamental_div_mod_converse(n, b, h, 0);
            assert(h * b + 0 == b * h) by (nonlinear_arith);
            assert(q * w + m * 8 == w * h) by (nonlinear_arith) requires q == h, m == 0;
        }
    } else {
        assert(bpr(w) == 0);
        assert(w * h == 0) by (nonlinear_arith) requires w == 0;
        assert(bpr(w) * h == 0) by (nonlinear_arith) requires bpr(w) == 0;
    }
}

/// one pixel drawn over another; what it is for the opacities in between is not specified here
pub uninterp spec fn blend(below: RGBA, top: RGBA, alpha: u8) -> RGBA;

impl RGBA {
    // assumed here; discharged by Kani (C16) on the real function
    #[verifier::external_body]
    pub fn blend_foreground_with_alpha(&mut self, color: &Self, alpha: &u8)
        ensures *final(self) == blend(*old(self), *color, *alpha),
            *alpha == 255 ==> *final(self) == (RGBA { r: color.r, g: color.g, b: color.b, a: 255 }),
            *alpha == 0 ==> *final(self) == *old(self),
    { unimplemented!() }

//@fn RGBA::blend_foreground
//@spec
    ensures *final(self) == blend(*old(self), *color, color.a),
        color.a == 255 ==> *final(self) == *color,
        color.a == 0 ==> *final(self) == *old(self),
//@end
}

// derived
impl Clone for Image {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}

/// a picture with as many pixels as it says
pub open spec fn whole(im: Image) -> bool { im.pixels.len() == im.w * im.h }

/// pixel (x, y) after the first n layers
pub open spec fn overlay(layers: Seq<Image>, n: int, x: int, y: int) -> RGBA
    decreases n
{
    if n <= 1 { layers[0].pixels[ix(x, y, layers[0].w as int)] }
    else {
        let below = overlay(layers, n - 1, x, y);
        let l = layers[n - 1];
        if x < l.w && y < l.h { over(below, l.pixels[ix(x, y, l.w as int)]) } else { below }
    }
}
pub open spec fn over(below: RGBA, top: RGBA) -> RGBA { blend(below, top, top.a) }

/// a layer that does not fit on the first
pub open spec fn too_big(layers: Seq<Image>) -> bool {
    exists |i: int| 1 <= i < layers.len() && (layers[i].w > layers[0].w || #[trigger] layers[i].h > layers[0].h)
}

//@fn merge_image_layers
//@ret r
//@spec
    requires forall |i: int| 0 <= i < layers.len() ==> whole(#[trigger] layers[i])
    ensures
        match r {
            Ok(im) => layers.len() >= 1 && !too_big(layers@) && whole(im)
                && im.w == layers[0].w && im.h == layers[0].h && im.x == layers[0].x && im.y == layers[0].y
                && im.flow == layers[0].flow && im.upside_down == layers[0].upside_down
                && forall |x: int, y: int| 0 <= x < im.w && 0 <= y < im.h ==>
                    im.pixels[#[trigger] ix(x, y, im.w as int)] == overlay(layers@, layers.len() as int, x, y),
            Err(_) => layers.len() == 0 || too_big(layers@),
        }
//@at before 1
    let ghost ls = layers@;
    let ghost w = image.w as int;
    let ghost h = image.h as int;
//@loop 1 it=it for merge_img in layers.iter().skip(1)
        invariant ls == layers@, ls.len() > 1, w == image.w, h == image.h, whole(image),
            forall |i: int| 0 <= i < ls.len() ==> whole(#[trigger] ls[i]),
            it.seq().len() == ls.len() - 1,
            forall |i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == ls[i + 1],
            ls[0].w == w, ls[0].h == h, image.x == ls[0].x, image.y == ls[0].y, image.flow == ls[0].flow,
            image.upside_down == ls[0].upside_down,
            forall |i: int| 1 <= i <= it.index() ==> ls[i].w <= w && #[trigger] ls[i].h <= h,
            forall |x: int, y: int| 0 <= x < w && 0 <= y < h ==>
                image.pixels[#[trigger] ix(x, y, w)] == overlay(ls, it.index() + 1, x, y),
//@at begin 1
        let ghost n = it.index() + 1;
        let ghost lw = merge_img.w as int;
        proof {
            assert(*it.seq()[it.index()] == ls[n]);
            assert(*merge_img == ls[n]);
            assert(ls[n].h == merge_img.h);
            lemma_ix(lw, merge_img.h as int);
        }
//@loop 2 for i in 0..merge_img.pixels.len()
            invariant ls == layers@, w == image.w, h == image.h, whole(image), *merge_img == ls[n], 1 <= n < ls.len(),
                ls[0].w == w, ls[0].h == h, image.x == ls[0].x, image.y == ls[0].y, image.flow == ls[0].flow,
                image.upside_down == ls[0].upside_down,
                lw == merge_img.w, lw <= w, merge_img.h <= h, whole(*merge_img),
                forall |x: int, y: int| 0 <= x < w && 0 <= y < h ==>
                    image.pixels[#[trigger] ix(x, y, w)] == (
                        if x < lw && y < merge_img.h && ix(x, y, lw) < i { overlay(ls, n + 1, x, y) } else { overlay(ls, n, x, y) }),
//@at begin 2
            proof {
                lemma_lay(i as int, lw, merge_img.h as int, w, h);
            }
//@at end 1
        proof {
            lemma_ix(lw, merge_img.h as int);
        }
//@end

proof fn lemma_lay(i: int, lw: int, lh: int, w: int, h: int)
    requires 0 <= i < lw * lh, 0 <= lw <= w, 0 <= lh <= h, w <= u32::MAX, h <= u32::MAX
    ensures lw > 0, 0 <= i % lw < lw, 0 <= i / lw < lh, ix(i % lw, i / lw, lw) == i,
        0 <= (i / lw) * w <= (i / lw) * w + i % lw < w * h, w * h <= u64::MAX,
        ix(i % lw, i / lw, w) == (i / lw) * w + i % lw,
        forall |x: int, y: int| 0 <= x < lw && 0 <= y && #[trigger] ix(x, y, lw) == i ==> x == i % lw && y == i / lw,
        forall |x: int, y: int| 0 <= x < w && 0 <= y && #[trigger] ix(x, y, w) == (i / lw) * w + i % lw ==> x == i % lw && y == i / lw,
        forall |x: int, y: int| 0 <= x < w && 0 <= y < h ==> 0 <= #[trigger] ix(x, y, w) < w * h,
{
    assert(lw > 0) by (nonlinear_arith) requires 0 <= i < lw * lh, 0 <= lw;
    lemma_place(i, lw, lh);
    lemma_machine(i % lw, i / lw, w, h);
    lemma_ix(lw, lh);
    lemma_ix(w, h);
}


pub enum Order { Rows, Columns, Raw }

/// bytes of one layer, its colour number included
pub open spec fn layer_bytes(w: int, h: int, o: Order) -> int {
    match o { Order::Rows => bpr(w) * h + 1, Order::Columns => bpr(h) * w + 1, Order::Raw => w * h + 1 }
}
proof fn lemma_layer_bytes(w: int, h: int, o: Order, n: int)
    requires 0 <= w <= 0xff_ffff, 0 <= h <= 0xff_ffff, 0 <= n <= 255
    ensures 1 <= layer_bytes(w, h, o) <= u64::MAX, 0 <= layer_bytes(w, h, o) * n <= u64::MAX
{
    assert(bpr(w) * h <= 0x100_0000 * 0x100_0000) by (nonlinear_arith) requires 0 <= bpr(w) <= 0x100_0000, 0 <= h <= 0x100_0000;
    assert(bpr(h) * w <= 0x100_0000 * 0x100_0000) by (nonlinear_arith) requires 0 <= bpr(h) <= 0x100_0000, 0 <= w <= 0x100_0000;
    assert(w * h <= 0x100_0000 * 0x100_0000) by (nonlinear_arith) requires 0 <= h <= 0x100_0000, 0 <= w <= 0x100_0000;
    assert(layer_bytes(w, h, o) * n <= 0x1_0000_0000_0001 * 255) by (nonlinear_arith) requires 0 <= layer_bytes(w, h, o) <= 0x1_0000_0000_0001, 0 <= n <= 255;
    assert(0 <= bpr(w) * h) by (nonlinear_arith) requires 0 <= bpr(w), 0 <= h;
    assert(0 <= bpr(h) * w) by (nonlinear_arith) requires 0 <= bpr(h), 0 <= w;
    assert(0 <= w * h) by (nonlinear_arith) requires 0 <= w, 0 <= h;
    assert(0 <= layer_bytes(w, h, o) * n) by (nonlinear_arith) requires 1 <= layer_bytes(w, h, o), 0 <= n;
}
/// the picture data of layer k
pub open spec fn layer_data(data: Seq<u8>, need: int, k: int) -> Seq<u8> { data.subrange(k * need + 1, k * need + need) }
/// the opacity at (x, y) that picture data gives
pub open spec fn opacity(data: Seq<u8>, w: int, h: int, o: Order, x: int, y: int) -> u8 {
    match o { Order::Rows => bit_at(data, w, x, y), Order::Columns => bit_at(data, h, y, x), Order::Raw => data[ix(x, y, w)] }
}
/// the colour a number stands for
pub open spec fn color_of(c: RenderColors, number: u8) -> RGBA {
    if number == 0 { c.paper_color } else if number == 2 || number == 50 { c.color_2 } else if number == 3 || number == 51 { c.color_3 } else { c.color_1 }
}
/// pixel (x, y) of layer k alone
pub open spec fn layer_pixel(data: Seq<u8>, c: RenderColors, w: int, h: int, o: Order, k: int, x: int, y: int) -> RGBA {
    let need = layer_bytes(w, h, o);
    tinted(color_of(c, data[k * need]), opacity(layer_data(data, need, k), w, h, o, x, y))
}
/// pixel (x, y) of the first n layers, later ones on top
pub open spec fn stack(data: Seq<u8>, c: RenderColors, w: int, h: int, o: Order, n: int, x: int, y: int) -> RGBA
    decreases n
{
    if n <= 1 { layer_pixel(data, c, w, h, o, 0, x, y) }
    else { over(stack(data, c, w, h, o, n - 1, x, y), layer_pixel(data, c, w, h, o, n - 1, x, y)) }
}
pub open spec fn is_layer(im: Image, data: Seq<u8>, c: RenderColors, w: int, h: int, stretch: (u8, u8), flow: ImageFlow, o: Order, k: int) -> bool {
    let need = layer_bytes(w, h, o);
    im.flow == flow && shows(im, w, h, stretch, color_of(c, data[k * need]), |x: int, y: int| opacity(layer_data(data, need, k), w, h, o, x, y))
}
proof fn lemma_stack(ls: Seq<Image>, data: Seq<u8>, c: RenderColors, w: int, h: int, stretch: (u8, u8), flow: ImageFlow, o: Order, n: int)
    requires 1 <= n <= ls.len(), forall |k: int| 0 <= k < n ==> is_layer(#[trigger] ls[k], data, c, w, h, stretch, flow, o, k)
    ensures forall |x: int, y: int| 0 <= x < w * factor(stretch.0) && 0 <= y < h * factor(stretch.1) ==>
        #[trigger] overlay(ls, n, x, y) == stack(data, c, w, h, o, n, dv(x, factor(stretch.0)), dv(y, factor(stretch.1)))
    decreases n
{
    assert(is_layer(ls[0], data, c, w, h, stretch, flow, o, 0));
    assert(is_layer(ls[n - 1], data, c, w, h, stretch, flow, o, n - 1));
    if n > 1 { lemma_stack(ls, data, c, w, h, stretch, flow, o, n - 1); }
    assert forall |x: int, y: int| 0 <= x < w * factor(stretch.0) && 0 <= y < h * factor(stretch.1) implies
        #[trigger] overlay(ls, n, x, y) == stack(data, c, w, h, o, n, dv(x, factor(stretch.0)), dv(y, factor(stretch.1))) by {
        let l = ls[n - 1];
        assert(l.pixels[ix(x, y, l.w as int)] == layer_pixel(data, c, w, h, o, n - 1, dv(x, factor(stretch.0)), dv(y, factor(stretch.1))));
        if n > 1 { assert(overlay(ls, n - 1, x, y) == stack(data, c, w, h, o, n - 1, dv(x, factor(stretch.0)), dv(y, factor(stretch.1)))); }
    }
}

// what RGBA::blend_foreground ensures, as a fact about the symbols
#[verifier::external_body]
proof fn axiom_over(below: RGBA, top: RGBA)
    ensures top.a == 255 ==> over(below, top) == top, top.a == 0 ==> over(below, top) == below
{}

/// every pixel shows the last layer that sets it
proof fn last_layer_shows(data: Seq<u8>, c: RenderColors, w: int, h: int, o: Order, n: int, k: int, x: int, y: int)
    requires 0 <= k < n,
        layer_pixel(data, c, w, h, o, k, x, y).a == 255,
        forall |j: int| k < j < n ==> #[trigger] layer_pixel(data, c, w, h, o, j, x, y).a == 0,
    ensures stack(data, c, w, h, o, n, x, y) == layer_pixel(data, c, w, h, o, k, x, y)
    decreases n
{
    if n > 1 {
        axiom_over(stack(data, c, w, h, o, n - 1, x, y), layer_pixel(data, c, w, h, o, n - 1, x, y));
        if k < n - 1 {
            assert(layer_pixel(data, c, w, h, o, n - 1, x, y).a == 0);
            last_layer_shows(data, c, w, h, o, n - 1, k, x, y);
        }
    }
}
/// and is blank where no layer does
proof fn unset_is_blank(data: Seq<u8>, c: RenderColors, w: int, h: int, o: Order, n: int, x: int, y: int)
    requires 1 <= n, forall |j: int| 0 <= j < n ==> #[trigger] layer_pixel(data, c, w, h, o, j, x, y).a == 0,
    ensures stack(data, c, w, h, o, n, x, y).a == 0
    decreases n
{
    assert(layer_pixel(data, c, w, h, o, n - 1, x, y).a == 0);
    if n > 1 {
        axiom_over(stack(data, c, w, h, o, n - 1, x, y), layer_pixel(data, c, w, h, o, n - 1, x, y));
        unset_is_blank(data, c, w, h, o, n - 1, x, y);
    }
}

//@use thermal_parser/src/context.rs
//@item struct RenderColors
impl RenderColors {
//@fn RenderColors::color_for_number
//@ret r
//@spec
    ensures *r == color_of(*self, number)
//@end
}

//@use thermal_parser/src/graphics.rs
impl GraphicsCommand {
//@fn GraphicsCommand::image_from_raster_bytes_multi_color
//@ret r
//@sub $str.into() => verif_message()
//@sub e.to_string() => verif_message()
//@spec
    requires width <= 0xff_ffff, height <= 0xff_ffff, data.len() <= 0x0fff_ffff_ffff_ffff,
        width * factor(stretch.0) <= u32::MAX, height * factor(stretch.1) <= u32::MAX,
    ensures
        ({
            let need = layer_bytes(width as int, height as int, if process_as_bits { Order::Rows } else { Order::Raw });
            match r {
                GraphicsCommand::Image(im) => data.len() == need * num_colors && num_colors >= 1
                    && im.w == width * factor(stretch.0) && im.h == height * factor(stretch.1) && whole(im)
                    && im.x == 0 && im.y == 0 && !im.upside_down && im.flow == flow
                    && forall |x: int, y: int| 0 <= x < im.w && 0 <= y < im.h ==>
                        im.pixels[#[trigger] ix(x, y, im.w as int)] == stack(data@, *render_colors, width as int, height as int,
                            if process_as_bits { Order::Rows } else { Order::Raw },
                            num_colors as int, dv(x, factor(stretch.0)), dv(y, factor(stretch.1))),
                GraphicsCommand::Error(_) => data.len() != need * num_colors || num_colors == 0,
                _ => false,
            }
        }),
//@at begin
    let ghost order = if process_as_bits { Order::Rows } else { Order::Raw };
    let ghost need = layer_bytes(width as int, height as int, order);
    let ghost w = width as int;
    let ghost h = height as int;
    proof {
        lemma_layer_bytes(w, h, order, num_colors as int);
    }
//@loop 1 for layer_no in 0..num_colors as usize
        invariant w == width, h == height, width <= 0xffff_fff0, height <= 0xffff_fff0,
            width * factor(stretch.0) <= u32::MAX, height * factor(stretch.1) <= u32::MAX,
            bytes_per_layer == need, need == layer_bytes(w, h, order), need >= 1,
            order == (if process_as_bits { Order::Rows } else { Order::Raw }),
            data.len() == need * num_colors, data.len() <= 0x0fff_ffff_ffff_ffff,
            image_layers.len() == layer_no,
            forall |k: int| 0 <= k < layer_no ==> is_layer(#[trigger] image_layers[k], data@, *render_colors, w, h, stretch, flow, order, k),
//@at begin 1
        proof {
            assert(layer_no * need + need <= need * num_colors && 0 <= layer_no * need) by (nonlinear_arith)
                requires 0 <= layer_no < num_colors, need >= 1;
        }
//@at end 1
        proof {
            let k = layer_no as int;
            assert(is_layer(image_layers[k], data@, *render_colors, w, h, stretch, flow, order, k)) by {
                assert(data@.subrange(k * need + 1, k * need + need) =~= layer_data(data@, need, k));
            }
        }
//@at after 1
    let ghost ls = image_layers@;
    proof {
        if num_colors >= 1 {
            assert forall |i: int| 0 <= i < ls.len() implies whole(#[trigger] ls[i]) && ls[i].w == w * factor(stretch.0) && ls[i].h == h * factor(stretch.1) by {
                assert(is_layer(ls[i], data@, *render_colors, w, h, stretch, flow, order, i));
            }
            assert(is_layer(ls[0], data@, *render_colors, w, h, stretch, flow, order, 0));
            lemma_stack(ls, data@, *render_colors, w, h, stretch, flow, order, num_colors as int);
        }
    }
//@end

//@fn GraphicsCommand::image_from_column_bytes_multi_color
//@ret r
//@sub $str.into() => verif_message()
//@sub e.to_string() => verif_message()
//@spec
    requires width <= 0xff_ffff, height <= 0xff_ffff, data.len() <= 0x0fff_ffff_ffff_ffff,
        width * factor(stretch.0) <= u32::MAX, height * factor(stretch.1) <= u32::MAX,
    ensures
        ({
            let need = layer_bytes(width as int, height as int, Order::Columns);
            match r {
                GraphicsCommand::Image(im) => data.len() == need * num_colors && num_colors >= 1
                    && im.w == width * factor(stretch.0) && im.h == height * factor(stretch.1) && whole(im)
                    && im.x == 0 && im.y == 0 && !im.upside_down && im.flow == flow
                    && forall |x: int, y: int| 0 <= x < im.w && 0 <= y < im.h ==>
                        im.pixels[#[trigger] ix(x, y, im.w as int)] == stack(data@, *render_colors, width as int, height as int,
                            Order::Columns,
                            num_colors as int, dv(x, factor(stretch.0)), dv(y, factor(stretch.1))),
                GraphicsCommand::Error(_) => data.len() != need * num_colors || num_colors == 0,
                _ => false,
            }
        }),
//@at begin
    let ghost order = Order::Columns;
    let ghost need = layer_bytes(width as int, height as int, order);
    let ghost w = width as int;
    let ghost h = height as int;
    proof {
        lemma_layer_bytes(w, h, order, num_colors as int);
    }
//@loop 1 for layer_no in 0..num_colors as usize
        invariant w == width, h == height, width <= 0xffff_fff0, height <= 0xffff_fff0,
            width * factor(stretch.0) <= u32::MAX, height * factor(stretch.1) <= u32::MAX,
            bytes_per_layer == need, need == layer_bytes(w, h, order), need >= 1,
            order == Order::Columns,
            data.len() == need * num_colors, data.len() <= 0x0fff_ffff_ffff_ffff,
            image_layers.len() == layer_no,
            forall |k: int| 0 <= k < layer_no ==> is_layer(#[trigger] image_layers[k], data@, *render_colors, w, h, stretch, flow, order, k),
//@at begin 1
        proof {
            assert(layer_no * need + need <= need * num_colors && 0 <= layer_no * need) by (nonlinear_arith)
                requires 0 <= layer_no < num_colors, need >= 1;
        }
//@at end 1
        proof {
            let k = layer_no as int;
            assert(is_layer(image_layers[k], data@, *render_colors, w, h, stretch, flow, order, k)) by {
                assert(data@.subrange(k * need + 1, k * need + need) =~= layer_data(data@, need, k));
            }
        }
//@at after 1
    let ghost ls = image_layers@;
    proof {
        if num_colors >= 1 {
            assert forall |i: int| 0 <= i < ls.len() implies whole(#[trigger] ls[i]) && ls[i].w == w * factor(stretch.0) && ls[i].h == h * factor(stretch.1) by {
                assert(is_layer(ls[i], data@, *render_colors, w, h, stretch, flow, order, i));
            }
            assert(is_layer(ls[0], data@, *render_colors, w, h, stretch, flow, order, 0));
            lemma_stack(ls, data@, *render_colors, w, h, stretch, flow, order, num_colors as int);
        }
    }
//@end
}

pub open spec fn factor(s: u8) -> int { if s == 0 { 1 } else { s as int } }

proof fn lemma_rows(w: int, h: int)
    requires w >= 0, h >= 0
    ensures w > 0 ==> rows(bpr(w) * h, w) == h && (bpr(w) * h) % bpr(w) == 0,
        bpr(0) == 0
{
    if w > 0 {
        let b = bpr(w);
        lemma_fundamental_div_mod_converse(b * h, b, h, 0);
        assert(h * b + 0 == b * h) by (nonlinear_arith);
    }
}
}
fn main() {}
