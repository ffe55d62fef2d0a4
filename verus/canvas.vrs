//@include grid.inc
//@include std.inc
//@meta assume Verus: canvases and pictures have fewer than 2^32 pixels, coordinates fit 32 bits
//@meta assume Verus: memory allocation succeeds
//@meta assume Verus: assumed contracts on std: slice::swap exchanges two elements, Vec::splice at an empty range inserts
//@meta rlimit 60
verus! {
//@use thermal_parser/src/graphics.rs
//@item struct RGBA
//@item struct Rectangle
//@item enum ImageFlow
//@item struct Image
//@use thermal_renderer/src/renderer.rs
//@item struct DebugProfile
// the fonts play no role here
#[verifier::external_body]
pub struct FontFamily { x: u8 }
//@use thermal_renderer/src/image_renderer/thermal_image.rs
//@item struct ThermalImage public

/// the text of an error is not specified
#[verifier::external_body]
fn verif_message() -> String { String::new() }
/// Vec::splice at an empty range
#[verifier::external_body]
fn verif_insert(v: &mut Vec<RGBA>, at: usize, to: usize, what: Vec<RGBA>)
    requires at == to, at <= old(v).len()
    ensures final(v)@ == old(v)@.subrange(0, at as int) + what@ + old(v)@.subrange(at as int, old(v).len() as int)
{ v.splice(at..to, what); }
fn verif_reserve(n: usize) {}
/// half of n rounded down, computed with f32
#[verifier::external_body]
fn verif_half(n: u32) -> (r: u32)
    requires n < 0x100_0000
    ensures r == n / 2
{ (n as f32 / 2.0).floor() as u32 }

/// what drawing a pixel over another gives; C16 says what it is
pub uninterp spec fn over(below: RGBA, top: RGBA) -> RGBA;
/// what multiplying a pixel with another gives; C16 says what it is
pub uninterp spec fn times(below: RGBA, top: RGBA) -> RGBA;

impl RGBA {
    #[verifier::external_body]
    pub fn blend_foreground(&mut self, color: &Self)
        ensures *final(self) == over(*old(self), *color)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn multiply_foreground(&mut self, color: &Self)
        ensures *final(self) == times(*old(self), *color)
    { unimplemented!() }
//@use thermal_parser/src/graphics.rs
//@fn RGBA::blank
//@ret r
//@end
}

pub open spec fn hgt(w: u32, n: nat) -> int { if w == 0 { 0 } else { n as int / w as int } }

impl ThermalImage {
    /// a whole number of rows, and a size the code can compute with
    pub open spec fn wf(self) -> bool {
        self.bytes.len() == self.width * self.h() && self.bytes.len() <= u32::MAX
    }
    pub open spec fn h(self) -> int { hgt(self.width, self.bytes.len() as nat) }
    pub open spec fn px(self, x: int, y: int) -> RGBA { self.bytes[ix(x, y, self.width as int)] }
    pub open spec fn seq(self) -> Seq<RGBA> { self.bytes@ }
    /// everything but the pixels and the width
    pub open spec fn same_settings(self, o: ThermalImage) -> bool {
        self.font == o.font && self.auto_grow == o.auto_grow && self.debug_profile == o.debug_profile && self.font_size == o.font_size
        && self.paper_color == o.paper_color && self.text_debug_color == o.text_debug_color
        && self.baseline_debug_color == o.baseline_debug_color && self.image_debug_color == o.image_debug_color
    }
    /// pixel (x, y) of the canvas, or of the blank paper below it
    pub open spec fn paper(self, x: int, y: int) -> RGBA { if y < self.h() { self.px(x, y) } else { self.paper_color } }

//@use thermal_renderer/src/image_renderer/thermal_image.rs
//@fn ThermalImage::get_height
//@ret r
//@spec
    requires self.wf()
    ensures r == self.h()
//@at begin
    proof { lemma_h(self.width as int, self.h(), self.bytes.len() as int); }
//@end

//@fn ThermalImage::rotate_90
//@spec
    requires old(self).wf(),
    ensures final(self).same_settings(*old(self)), final(self).errors == old(self).errors,
        final(self).width == old(self).h(), final(self).wf(),
        turn90(old(self).seq(), old(self).width as int, old(self).h(), final(self).seq()),
//@at before 1
        let ghost a = self.seq();
        proof {
            lemma_h(self.width as int, self.h(), self.bytes.len() as int);
            lemma_ix(h as int, w as int);
            lemma_swap(w as int, h as int);
        }
//@loop 1 for y in 0..h
            invariant *self == *old(self), a == self.bytes@, w == self.width, a.len() == w * h, rotated_image.len() == w * h, w <= u32::MAX, h <= u32::MAX,
                forall |x2: int, y2: int| h - y <= x2 < h && 0 <= y2 < w ==>
                    rotated_image[#[trigger] ix(x2, y2, h as int)] == a[ix(y2, h - 1 - x2, w as int)],
//@loop 2 for x in 0..w
                invariant *self == *old(self), a == self.bytes@, w == self.width, a.len() == w * h, rotated_image.len() == w * h, w <= u32::MAX, h <= u32::MAX, y < h,
                    forall |x2: int, y2: int| h - y <= x2 < h && 0 <= y2 < w ==>
                        rotated_image[#[trigger] ix(x2, y2, h as int)] == a[ix(y2, h - 1 - x2, w as int)],
                    forall |y2: int| 0 <= y2 < x ==>
                        rotated_image[#[trigger] ix(h - 1 - y, y2, h as int)] == a[ix(y2, y as int, w as int)],
//@at begin 2
                proof {
                    lemma_ix(h as int, w as int);
                    lemma_swap(w as int, h as int);
                    lemma_machine(x as int, y as int, w as int, h as int);
                    lemma_machine(h - 1 - y, x as int, h as int, w as int);
                }
//@at after 1
        proof { lemma_turned(w as int, h as int); }
//@end

//@fn ThermalImage::rotate_180
//@spec
    requires old(self).wf(),
    ensures final(self).same_settings(*old(self)), final(self).errors == old(self).errors,
        final(self).width == old(self).width, final(self).wf(), final(self).h() == old(self).h(),
        turn180(old(self).seq(), old(self).width as int, old(self).h(), final(self).seq()),
//@at before 1
        let ghost a = self.seq();
        proof {
            lemma_h(self.width as int, self.h(), self.bytes.len() as int);
            lemma_ix(w as int, h as int);
        }
//@loop 1 for y in 0..h
            invariant *self == *old(self), a == self.bytes@, w == self.width, a.len() == w * h, rotated_image.len() == w * h, w <= u32::MAX, h <= u32::MAX,
                forall |x2: int, y2: int| 0 <= x2 < w && h - y <= y2 < h ==>
                    rotated_image[#[trigger] ix(x2, y2, w as int)] == a[ix(w - 1 - x2, h - 1 - y2, w as int)],
//@loop 2 for x in 0..w
                invariant *self == *old(self), a == self.bytes@, w == self.width, a.len() == w * h, rotated_image.len() == w * h, w <= u32::MAX, h <= u32::MAX, y < h,
                    forall |x2: int, y2: int| 0 <= x2 < w && h - y <= y2 < h ==>
                        rotated_image[#[trigger] ix(x2, y2, w as int)] == a[ix(w - 1 - x2, h - 1 - y2, w as int)],
                    forall |x2: int| w - x <= x2 < w ==>
                        rotated_image[#[trigger] ix(x2, h - 1 - y, w as int)] == a[ix(w - 1 - x2, y as int, w as int)],
//@at begin 2
                proof {
                    lemma_ix(w as int, h as int);
                    lemma_machine(x as int, y as int, w as int, h as int);
                    lemma_machine(w - 1 - x, h - 1 - y, w as int, h as int);
                }
//@end

//@fn ThermalImage::rotate_270
//@spec
    requires old(self).wf(),
    ensures final(self).same_settings(*old(self)), final(self).errors == old(self).errors,
        final(self).width == old(self).h(), final(self).wf(),
        turn270(old(self).seq(), old(self).width as int, old(self).h(), final(self).seq()),
//@at before 1
        let ghost a = self.seq();
        proof {
            lemma_h(self.width as int, self.h(), self.bytes.len() as int);
            lemma_ix(h as int, w as int);
            lemma_swap(w as int, h as int);
        }
//@loop 1 for y in 0..h
            invariant *self == *old(self), a == self.bytes@, w == self.width, a.len() == w * h, rotated_image.len() == w * h, w <= u32::MAX, h <= u32::MAX,
                forall |x2: int, y2: int| 0 <= x2 < y && 0 <= y2 < w ==>
                    rotated_image[#[trigger] ix(x2, y2, h as int)] == a[ix(w - 1 - y2, x2, w as int)],
//@loop 2 for x in 0..w
                invariant *self == *old(self), a == self.bytes@, w == self.width, a.len() == w * h, rotated_image.len() == w * h, w <= u32::MAX, h <= u32::MAX, y < h,
                    forall |x2: int, y2: int| 0 <= x2 < y && 0 <= y2 < w ==>
                        rotated_image[#[trigger] ix(x2, y2, h as int)] == a[ix(w - 1 - y2, x2, w as int)],
                    forall |y2: int| w - x <= y2 < w ==>
                        rotated_image[#[trigger] ix(y as int, y2, h as int)] == a[ix(w - 1 - y2, y as int, w as int)],
//@at begin 2
                proof {
                    lemma_ix(h as int, w as int);
                    lemma_swap(w as int, h as int);
                    lemma_machine(x as int, y as int, w as int, h as int);
                    lemma_machine(y as int, w - 1 - x, h as int, w as int);
                }
//@at after 1
        proof { lemma_turned(w as int, h as int); }
//@end
}

impl ThermalImage {
//@fn ThermalImage::set_width
//@spec
    ensures final(self).same_settings(*old(self)), final(self).errors == old(self).errors,
        final(self).width == width, final(self).wf(), final(self).h() == 0,
//@at begin
        proof { lemma_zero(width as int); }
//@end

//@fn ThermalImage::copy
//@ret r
//@spec
    requires old(self).wf()
    ensures *final(self) == *old(self), r.0 == old(self).width, r.1 == old(self).h(), r.2@ =~= old(self).seq()
//@end

//@fn ThermalImage::expand_to_height
//@spec
    requires old(self).wf(), old(self).width * height <= u32::MAX
    ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).errors == old(self).errors,
        final(self).width == old(self).width,
        final(self).h() == (if old(self).width > 0 && height > old(self).h() { height as int } else { old(self).h() }),
        forall |x: int, y: int| 0 <= x < final(self).width && 0 <= y < final(self).h() ==>
            #[trigger] final(self).px(x, y) == old(self).paper(x, y),
//@at begin
        let ghost w = self.width as int;
        let ghost h0 = self.h();
        proof {
            lemma_h(w, h0, self.bytes.len() as int);
            lemma_rows_of(w, h0, height as int);
            lemma_ix(w, h0);
        }
//@loop 1 it=it for _ in 0..to_add
            invariant self.width == old(self).width, self.same_settings(*old(self)), self.errors == old(self).errors,
                self.bytes.len() >= cur_len, cur_len == old(self).bytes.len(), cur_len + to_add == len,
                self.bytes.len() <= len, self.bytes.len() == cur_len + it.index(),
                forall |i: int| 0 <= i < cur_len ==> self.bytes[i] == old(self).bytes[i],
                forall |i: int| cur_len <= i < self.bytes.len() ==> self.bytes[i] == self.paper_color,
//@at after 1
        proof {
            lemma_ix(w, height as int);
            assert forall |x: int, y: int| 0 <= x < w && 0 <= y < height implies
                (y < h0 ==> ix(x, y, w) < cur_len) && (y >= h0 ==> #[trigger] ix(x, y, w) >= cur_len) by {
                lemma_split(x, y, w, h0);
            }
            lemma_turned(height as int, w);
        }
//@end

//@fn ThermalImage::crop_pixels
//@ret r
//@spec
    requires pixels.len() == width * height, width * height <= u32::MAX
    ensures r.0 == (if width > max_width { max_width } else { width }),
        r.1 == (if crop_height && height > max_height { max_height } else { height }),
        r.2.len() == r.0 * r.1,
        forall |x: int, y: int| 0 <= x < r.0 && 0 <= y < r.1 ==>
            r.2[#[trigger] ix(x, y, r.0 as int)] == pixels[ix(x, y, width as int)],
//@at begin
        proof {
            lemma_less(if width > max_width { max_width as int } else { width as int }, width as int,
                if crop_height && height > max_height { max_height as int } else { height as int }, height as int);
        }
//@at before 1
        proof { reveal(ix); assert(ix(0, 0, new_width as int) == 0); }
//@loop 1 for y in 0..new_height
            invariant pixels.len() == width * height, width * height <= u32::MAX, new_width <= width, new_height <= height,
                cropped_pixels.len() == ix(0, y as int, new_width as int),
                forall |x2: int, y2: int| 0 <= x2 < new_width && 0 <= y2 < y ==>
                    cropped_pixels[#[trigger] ix(x2, y2, new_width as int)] == pixels[ix(x2, y2, width as int)],
//@at begin 1
            let ghost before = cropped_pixels@;
            proof {
                reveal(ix);
                assert(0 <= y * width && y * width + width <= width * height) by (nonlinear_arith) requires 0 <= y < height, 0 <= width;
                assert(width * height <= u32::MAX);
            }
//@at end 1
            proof {
                let nw = new_width as int;
                lemma_ix(nw, y + 1);
                assert((y + 1) * nw == y * nw + nw) by (nonlinear_arith);
                assert(ix(0, y + 1, nw) == ix(0, y as int, nw) + nw) by { reveal(ix); }
                assert forall |x2: int, y2: int| 0 <= x2 < nw && 0 <= y2 < y + 1 implies
                    cropped_pixels[#[trigger] ix(x2, y2, nw)] == pixels[ix(x2, y2, width as int)] by {
                    reveal(ix);
                    if y2 < y {
                        lemma_split(x2, y2, nw, y as int);
                        lemma_swap(nw, y as int);
                        assert(cropped_pixels[ix(x2, y2, nw)] == before[ix(x2, y2, nw)]);
                    } else {
                        assert(ix(x2, y2, nw) == before.len() + x2);
                        assert(cropped_pixels[before.len() + x2] == row[x2]);
                    }
                }
            }
//@at after 1
        proof { reveal(ix); lemma_swap(new_width as int, new_height as int); }
//@end

//@fn ThermalImage::put_pixels
//@ret r
//@sub format!(...) => verif_message()
//@sub $str.to_string() => verif_message()
//@spec
    requires old(self).wf(), pixels.len() <= u32::MAX,
        old(self).auto_grow ==> y + height <= u32::MAX && old(self).width * (y + height) <= u32::MAX,
    ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).width == old(self).width,
        r == old(self).takes(x, y, width, height, pixels@),
        !r ==> final(self).seq() == old(self).seq() && final(self).errors.len() == old(self).errors.len() + 1,
        r ==> final(self).errors == old(self).errors
            && final(self).h() == (if old(self).auto_grow && y + height > old(self).h() { y + height } else { old(self).h() })
            && forall |cx: int, cy: int| 0 <= cx < final(self).width && 0 <= cy < final(self).h() ==>
                #[trigger] final(self).px(cx, cy) == old(self).drawn(cx, cy, x as int, y as int, width as int, height as int, pixels@, multiply),
//@at begin
        let ghost w = self.width as int;
        let ghost h0 = self.h();
        let ghost given = pixels@;
        proof {
            lemma_h(w, h0, self.bytes.len() as int);
            lemma_area(width as int, height as int);
            assert forall |a: int, b: int| 0 <= a <= b implies #[trigger] (w * a) <= #[trigger] (w * b) by {
                assert(w * a <= w * b) by (nonlinear_arith) requires 0 <= a <= b, 0 <= w;
            }
        }
//@at before 1
            let ghost fw = final_width as int;
            let ghost fh = final_height as int;
            let ghost pic = final_pixels@;
            let ghost h1 = self.h();
            proof {
                assert(pic.len() == fw * fh);
                assert(x + fw <= w);
                assert(fh > 0 ==> y + fh <= h1);
                assert forall |i: int, j: int| 0 <= i < fw && 0 <= j < fh implies pic[#[trigger] ix(i, j, fw)] == given[ix(i, j, width as int)] by {}
                lemma_ix(fw, fh);
                lemma_h(w, h1, self.bytes.len() as int);
            }
            let ghost canvas = *self;
            proof { lemma_none(canvas, x as int, y as int, fw, fh, pic, true); lemma_none(canvas, x as int, y as int, fw, fh, pic, false); }
//@loop 1 it=it for pixel in &final_pixels
                invariant self.wf(), self.width == w, self.same_settings(*old(self)), self.errors == old(self).errors, self.h() == h1, canvas.wf(), canvas.h() == h1, canvas.width == w,
                    w <= u32::MAX, h1 <= u32::MAX, fw == final_width, fh == final_height, fw >= 0,
                    pic.len() == fw * fh, x + fw <= w, fh > 0 ==> y + fh <= h1, it.seq().len() == pic.len(),
                    forall |i: int| 0 <= i < pic.len() ==> *#[trigger] it.seq()[i] == pic[i],
                    fw > 0 ==> x <= cur_x < x + fw && cur_y >= y && it.index() == ix(cur_x - x, cur_y - y, fw),
                    partly(*self, canvas, x as int, y as int, fw, fh, pic, it.index(), true),
//@at begin 1
                let ghost prior = *self;
                let ghost cx0 = cur_x as int;
                let ghost cy0 = cur_y as int;
                proof {
                    let i = it.index();
                    assert(*it.seq()[i] == pic[i]);
                    lemma_step(i, fw, fh, cur_x - x, cur_y - y);
                    lemma_machine(cur_x as int, cur_y as int, w, h1);
                    lemma_h(w, h1, self.bytes.len() as int);
                }
//@at end 1
                proof { lemma_write(*self, prior, canvas, x as int, y as int, fw, fh, pic, it.index(), cx0, cy0, true); }
//@at after 1
            proof { lemma_drawn(*old(self), *self, canvas, x as int, y as int, width as int, height as int, fw, fh, given, pic, true); }
//@at before 2
            let ghost fw = final_width as int;
            let ghost fh = final_height as int;
            let ghost pic = final_pixels@;
            let ghost h1 = self.h();
            proof {
                assert(pic.len() == fw * fh);
                assert(x + fw <= w);
                assert(fh > 0 ==> y + fh <= h1);
                assert forall |i: int, j: int| 0 <= i < fw && 0 <= j < fh implies pic[#[trigger] ix(i, j, fw)] == given[ix(i, j, width as int)] by {}
                lemma_ix(fw, fh);
                lemma_h(w, h1, self.bytes.len() as int);
            }
            let ghost canvas = *self;
            proof { lemma_none(canvas, x as int, y as int, fw, fh, pic, true); lemma_none(canvas, x as int, y as int, fw, fh, pic, false); }
//@loop 2 it=it for pixel in &final_pixels
                invariant self.wf(), self.width == w, self.same_settings(*old(self)), self.errors == old(self).errors, self.h() == h1, canvas.wf(), canvas.h() == h1, canvas.width == w,
                    w <= u32::MAX, h1 <= u32::MAX, fw == final_width, fh == final_height, fw >= 0,
                    pic.len() == fw * fh, x + fw <= w, fh > 0 ==> y + fh <= h1, it.seq().len() == pic.len(),
                    forall |i: int| 0 <= i < pic.len() ==> *#[trigger] it.seq()[i] == pic[i],
                    fw > 0 ==> x <= cur_x < x + fw && cur_y >= y && it.index() == ix(cur_x - x, cur_y - y, fw),
                    partly(*self, canvas, x as int, y as int, fw, fh, pic, it.index(), false),
//@at begin 2
                let ghost prior = *self;
                let ghost cx0 = cur_x as int;
                let ghost cy0 = cur_y as int;
                proof {
                    let i = it.index();
                    assert(*it.seq()[i] == pic[i]);
                    lemma_step(i, fw, fh, cur_x - x, cur_y - y);
                    lemma_machine(cur_x as int, cur_y as int, w, h1);
                    lemma_h(w, h1, self.bytes.len() as int);
                }
//@at end 2
                proof { lemma_write(*self, prior, canvas, x as int, y as int, fw, fh, pic, it.index(), cx0, cy0, false); }
//@at after 2
            proof { lemma_drawn(*old(self), *self, canvas, x as int, y as int, width as int, height as int, fw, fh, given, pic, false); }
//@end

//@fn ThermalImage::reset
//@sub self.bytes.shrink_to($1) => verif_reserve($1)
//@spec
    ensures final(self).same_settings(*old(self)), final(self).errors == old(self).errors, final(self).width == old(self).width,
        final(self).bytes.len() == 0, final(self).wf(), final(self).h() == 0,
//@at begin
        proof { lemma_zero(self.width as int); }
//@end

//@fn ThermalImage::empty
//@spec
    ensures final(self).same_settings(*old(self)), final(self).errors == old(self).errors, final(self).width == old(self).width,
        final(self).bytes.len() == 0, final(self).wf(), final(self).h() == 0,
//@at begin
        proof { lemma_zero(self.width as int); }
//@end

//@fn ThermalImage::draw_rect
//@spec
    requires old(self).wf(), w * h <= u32::MAX,
        old(self).auto_grow ==> y + h <= u32::MAX && old(self).width * (y + h) <= u32::MAX,
    ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).width == old(self).width,
        old(self).rect_drawn(*final(self), x as int, y as int, w as int, h as int, *color, multiply),
//@at begin
        let ghost before = *self;
        proof {
            lemma_ix(w as int, h as int);
            assert(0 <= w * h) by (nonlinear_arith) requires 0 <= w, 0 <= h;
        }
//@end

//@fn ThermalImage::put_rect
//@spec
    requires old(self).wf(), rectangle.w * rectangle.h <= u32::MAX,
        old(self).auto_grow ==> rectangle.y + rectangle.h <= u32::MAX && old(self).width * (rectangle.y + rectangle.h) <= u32::MAX,
    ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).width == old(self).width,
        old(self).rect_drawn(*final(self), rectangle.x as int, rectangle.y as int, rectangle.w as int, rectangle.h as int, *color, true),
//@end

    pub open spec fn rect_drawn(self, after: ThermalImage, x: int, y: int, w: int, h: int, color: RGBA, multiply: bool) -> bool {
        if x < self.width && (y < self.h() || self.auto_grow) {
            after.errors == self.errors
            && after.h() == (if self.auto_grow && y + h > self.h() { y + h } else { self.h() })
            && forall |cx: int, cy: int| 0 <= cx < after.width && 0 <= cy < after.h() ==> #[trigger] after.px(cx, cy) == (
                if x <= cx < x + w && y <= cy < y + h {
                    if multiply { times(self.paper(cx, cy), color) } else { over(self.paper(cx, cy), color) }
                } else { self.paper(cx, cy) })
        } else {
            after.seq() == self.seq() && after.errors.len() == self.errors.len() + 1
        }
    }

//@fn ThermalImage::draw_border
//@spec
    requires width > 0, height > 0, old(bytes).len() == width * height, old(bytes).len() <= u32::MAX
    ensures final(bytes).len() == old(bytes).len(),
        forall |x: int, y: int| 0 < x < width - 1 && 0 < y < height - 1 ==>
            final(bytes)[#[trigger] ix(x, y, width as int)] == old(bytes)[ix(x, y, width as int)],
//@at begin
        let ghost w = width as int;
        let ghost h = height as int;
        let ghost given = bytes@;
        proof {
            lemma_ix(w, h);
            assert((h - 1) * w == w * h - w && 0 <= (h - 1) * w) by (nonlinear_arith) requires h >= 1, w >= 1;
        }
//@loop 1 for x in 0..width as usize
            invariant bytes.len() == w * h, bytes.len() == given.len(), w == width, h == height, w > 0, h > 0, bot_left == (h - 1) * w, bot_left == w * h - w, 
                forall |x: int, y: int| 0 < x < w - 1 && 0 < y < h - 1 ==> bytes[#[trigger] ix(x, y, w)] == given[ix(x, y, w)],
//@at begin 1
            proof {
                lemma_ix(w, h);
                assert(ix(x as int, 0, w) == x && ix(x as int, h - 1, w) == (h - 1) * w + x) by { reveal(ix); }
            }
//@loop 2 for y in 0..height
            invariant bytes.len() == w * h, bytes.len() == given.len(), bytes.len() <= u32::MAX, w == width, h == height, w > 0, h > 0,
                forall |x: int, y: int| 0 < x < w - 1 && 0 < y < h - 1 ==> bytes[#[trigger] ix(x, y, w)] == given[ix(x, y, w)],
//@at begin 2
            proof {
                lemma_ix(w, h);
                lemma_machine(0, y as int, w, h);
                lemma_machine(w - 1, y as int, w, h);
            }
//@end

//@fn ThermalImage::flip_pixels
//@spec
    requires old(self).wf(), x + width <= u32::MAX, y + height <= u32::MAX, width * height <= u32::MAX,
        old(self).auto_grow ==> old(self).width * (y + height) <= u32::MAX,
    ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).width == old(self).width,
        width > 0 && height > 0 ==> final(self).errors == old(self).errors,
        !old(self).flips(x, y, width, height) ==> final(self).seq() == old(self).seq(),
        !old(self).flips(x, y, width, height) ==> forall |cx: int, cy: int| #[trigger] final(self).px(cx, cy) == old(self).px(cx, cy),
        old(self).flips(x, y, width, height) ==>
            final(self).h() == (if old(self).width > 0 && y + height > old(self).h() { y + height } else { old(self).h() }),
        old(self).flips(x, y, width, height) ==>
            forall |cx: int, cy: int| 0 <= cx < final(self).width && 0 <= cy < final(self).h() ==>
                #[trigger] final(self).px(cx, cy) == old(self).flipped(cx, cy, x as int, y as int, width as int, height as int),
//@at begin
        let ghost w = self.width as int;
        let ghost fw = width as int;
        let ghost fh = height as int;
        proof {
            lemma_h(w, self.h(), self.bytes.len() as int);
            assert forall |a: int, b: int| 0 <= a <= b implies #[trigger] (w * a) <= #[trigger] (w * b) by {
                assert(w * a <= w * b) by (nonlinear_arith) requires 0 <= a <= b, 0 <= w;
            }
        }
//@at before 1
        let ghost canvas = *self;
        proof {
            lemma_ix(fw, fh);
            reveal(ix);
            assert(ix(0, 0, fw) == 0);
            lemma_h(w, self.h(), self.bytes.len() as int);
            assert(w > 0 ==> y + fh <= self.h());
        }
//@loop 1 for cur_y in y..y + height
            invariant *self == canvas, canvas.wf(), w == self.width, fw == width, fh == height, x + fw <= w, w > 0 ==> y + fh <= self.h(), self.h() <= u32::MAX,
                y + fh <= u32::MAX,
                sub_image.len() == ix(0, cur_y - y, fw),
                forall |a: int, b: int| 0 <= a < fw && 0 <= b < cur_y - y ==> sub_image[#[trigger] ix(a, b, fw)] == canvas.px(x + a, y + b),
//@at begin 1
            let ghost prior = sub_image@;
            proof {
                if w > 0 {
                    reveal(ix);
                    lemma_machine(0, cur_y as int, w, self.h());
                    assert(cur_y * w + w <= w * self.h()) by (nonlinear_arith) requires 0 <= cur_y < self.h(), 0 <= w;
                } else {
                    assert(cur_y * w == 0) by (nonlinear_arith) requires w == 0;
                }
            }
//@at end 1
            proof {
                let n = cur_y - y;
                reveal(ix);
                assert((n + 1) * fw == n * fw + fw) by (nonlinear_arith);
                assert(ix(0, n + 1, fw) == ix(0, n, fw) + fw);
                assert forall |a: int, b: int| 0 <= a < fw && 0 <= b < n + 1 implies sub_image[#[trigger] ix(a, b, fw)] == canvas.px(x + a, y + b) by {
                    reveal(ix);
                    if b < n {
                        lemma_split(a, b, fw, n);
                        lemma_swap(fw, n);
                        assert(sub_image[ix(a, b, fw)] == prior[ix(a, b, fw)]);
                    } else {
                        assert(ix(a, b, fw) == prior.len() + a);
                    }
                }
            }
//@at after 1
        let ghost upright = sub_image@;
        proof { reveal(ix); lemma_swap(fw, fh); reveal(turned_over); }
//@loop 2 for i in 0..(height as usize / 2)
            invariant fw == width, fh == height, row_size == fw, sub_image.len() == fw * fh, upright.len() == fw * fh, fw * fh <= u32::MAX, *self == canvas,
                turned_over(sub_image@, upright, fw, fh, i as int, 0),
//@at begin 2
            proof { lemma_row(i as int, fw, fh); lemma_row(fh - 1 - i, fw, fh); }
//@loop 3 for j in 0..row_size
                invariant fw == width, fh == height, row_size == fw, sub_image.len() == fw * fh, upright.len() == fw * fh, fw * fh <= u32::MAX, *self == canvas,
                    i < fh / 2, top_row_start == i * fw, bottom_row_start == (fh - 1 - i) * fw,
                    turned_over(sub_image@, upright, fw, fh, i as int, j as int),
//@at begin 3
                let ghost prior = sub_image@;
                proof {
                    lemma_machine(j as int, i as int, fw, fh);
                    lemma_machine(j as int, fh - 1 - i, fw, fh);
                }
//@at end 3
                proof { lemma_turn_over(prior, sub_image@, upright, fw, fh, i as int, j as int); }
//@at end 2
            proof { lemma_row_done(sub_image@, upright, fw, fh, i as int); }
//@at after 2
        proof {
            reveal(turned_over);
            lemma_ix(fw, fh);
            assert forall |a: int, b: int| 0 <= a < fw && 0 <= b < fh implies sub_image[#[trigger] ix(a, b, fw)] == old(self).paper(x + a, y + (fh - 1 - b)) by {
                assert(sub_image[ix(a, b, fw)] == upright[ix(a, fh - 1 - b, fw)]);
                assert(canvas.px(x + a, y + (fh - 1 - b)) == old(self).paper(x + a, y + (fh - 1 - b)));
            }
            assert forall |cx: int, cy: int| 0 <= cx < w && 0 <= cy < canvas.h() implies
                canvas.drawn(cx, cy, x as int, y as int, fw, fh, sub_image@, false) == #[trigger] old(self).flipped(cx, cy, x as int, y as int, fw, fh)
                && canvas.px(cx, cy) == old(self).paper(cx, cy) by {
                assert(canvas.px(cx, cy) == old(self).paper(cx, cy));
            }
        }
//@end

    pub open spec fn flips(self, x: u32, y: u32, width: u32, height: u32) -> bool {
        x + width <= self.width && (self.auto_grow || y + height <= self.h())
    }
    pub open spec fn flipped(self, cx: int, cy: int, x: int, y: int, width: int, height: int) -> RGBA {
        if x <= cx < x + width && y <= cy < y + height {
            over(self.paper(cx, cy), self.paper(cx, y + (height - 1 - (cy - y))))
        } else { self.paper(cx, cy) }
    }

//@fn ThermalImage::put_render_img
//@spec
    requires old(self).wf(), image.pixels.len() <= u32::MAX, image.w * image.h <= u32::MAX,
        image.x + image.w <= u32::MAX, image.y + image.h <= u32::MAX,
        old(self).auto_grow ==> old(self).width * (image.y + image.h) <= u32::MAX,
        old(self).debug_profile.image ==> image.w > 0 && image.h > 0 && image.pixels.len() == image.w * image.h,
    ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).width == old(self).width,
        !old(self).debug_profile.image && old(self).takes(image.x, image.y, image.w, image.h, image.pixels@) ==>
            final(self).h() == (if old(self).auto_grow && image.y + image.h > old(self).h() { image.y + image.h } else { old(self).h() }),
        !old(self).debug_profile.image && old(self).takes(image.x, image.y, image.w, image.h, image.pixels@) ==>
            forall |cx: int, cy: int| 0 <= cx < final(self).width && 0 <= cy < final(self).h() ==>
                #[trigger] final(self).px(cx, cy) == old(self).with_image(cx, cy, *image),
//@end

    /// pixel (cx, cy) after an image was drawn
    pub open spec fn with_image(self, cx: int, cy: int, i: Image) -> RGBA {
        let here = self.drawn(cx, cy, i.x as int, i.y as int, i.w as int, i.h as int, i.pixels@, true);
        if i.upside_down && i.x + i.w <= self.width && (self.auto_grow || i.y + i.h <= self.h())
            && i.x <= cx < i.x + i.w && i.y <= cy < i.y + i.h {
            over(here, self.drawn(cx, i.y + (i.h - 1 - (cy - i.y)), i.x as int, i.y as int, i.w as int, i.h as int, i.pixels@, true))
        } else { here }
    }

//@fn ThermalImage::consume_rgb_u8
//@ret r
//@spec
    requires old(self).wf()
    ensures r.0 == old(self).width, r.1 == old(self).h(), r.2.len() == 3 * old(self).bytes.len(),
        forall |i: int| 0 <= i < old(self).bytes.len() ==> {
            let p = #[trigger] old(self).bytes[i];
            r.2[3 * i] == p.r && r.2[3 * i + 1] == p.g && r.2[3 * i + 2] == p.b
        },
        final(self).same_settings(*old(self)), final(self).width == 0, final(self).wf(), final(self).h() == 0,
//@at begin
        proof { lemma_h(self.width as int, self.h(), self.bytes.len() as int); }
//@loop 1 it=it for byte in self.bytes.iter()
            invariant it.seq().len() == self.bytes.len(), forall |i: int| 0 <= i < self.bytes.len() ==> *#[trigger] it.seq()[i] == self.bytes[i],
                *self == *old(self),
                pixels.len() == 3 * it.index(),
                forall |i: int| 0 <= i < it.index() ==> {
                    let p = #[trigger] self.bytes[i];
                    pixels[3 * i] == p.r && pixels[3 * i + 1] == p.g && pixels[3 * i + 2] == p.b
                },
//@at begin 1
            proof { assert(*it.seq()[it.index()] == self.bytes[it.index()]); }
//@end

//@fn ThermalImage::add_top_margin
//@sub self.bytes.splice($1..$2, $3) => verif_insert(&mut self.bytes, $1, $2, $3)
//@spec
    requires old(self).wf(), old(self).width * height <= u32::MAX, old(self).width * height + old(self).bytes.len() <= u32::MAX,
    ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).errors == old(self).errors, final(self).width == old(self).width,
        final(self).h() == (if old(self).width > 0 { old(self).h() + height } else { 0 }),
        forall |x: int, y: int| 0 <= x < final(self).width && 0 <= y < final(self).h() ==>
            #[trigger] final(self).px(x, y) == (if y < height { old(self).paper_color } else { old(self).px(x, y - height) }),
//@at begin
        let ghost w = self.width as int;
        let ghost h0 = self.h();
        let ghost m = height as int;
        proof {
            lemma_area(w, m);
            lemma_h(w, h0, self.bytes.len() as int);
            assert(w * (h0 + m) == w * h0 + w * m) by (nonlinear_arith);
            lemma_rows_of(w, h0, h0 + m);
            assert forall |x: int, y: int| 0 <= x < w && 0 <= y implies
                (y < m ==> #[trigger] ix(x, y, w) < w * m) && (y >= m ==> ix(x, y, w) - w * m == ix(x, y - m, w)) by {
                lemma_split(x, y, w, m);
                assert(y * w - w * m == (y - m) * w) by (nonlinear_arith);
                reveal(ix);
            }
            lemma_ix(w, h0);
            lemma_ix(w, h0 + m);
        }
//@end

//@fn ThermalImage::expand_to_width
//@sub self.bytes.splice($1..$2, $3) => verif_insert(&mut self.bytes, $1, $2, $3)
//@sub self.bytes.try_reserve($1).unwrap() => verif_reserve($1)
//@sub (($1) as f32 / 2.0).floor() as u32 => verif_half($1)
//@spec
    requires old(self).wf(), new_width - old(self).width < 0x100_0000, new_width * old(self).h() <= u32::MAX
    ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).errors == old(self).errors,
        final(self).h() == old(self).h(),
        new_width < old(self).width ==> final(self).width == old(self).width && final(self).seq() == old(self).seq(),
        new_width >= old(self).width ==> final(self).width == new_width
            && forall |x: int, y: int| 0 <= x < new_width && 0 <= y < final(self).h() ==>
                #[trigger] final(self).px(x, y) == old(self).widened(x, y, (new_width - old(self).width) / 2),
//@at before 1
        let ghost ow = old_width as int;
        let ghost nw = new_width as int;
        let ghost l = left as int;
        let ghost first = *self;
        proof { lemma_wide_start(first, nw, height as int, l); }
//@at begin
        proof {
            lemma_h(self.width as int, self.h(), self.bytes.len() as int);
            lemma_swap(new_width as int, self.h());
            if new_width >= self.width { lemma_less(self.width as int, new_width as int, self.h(), self.h()); }
        }
//@loop 1 it=it for _ in 0..height
            invariant first.wf(), first == *old(self), ow == old_width, nw == new_width, ow == first.width, ow <= nw, left == l, l == (nw - ow) / 2, left + ow + right == nw, height == first.h(),
                nw * height <= u32::MAX,
                left_bytes.len() == left, right_bytes.len() == right,
                forall |i: int| 0 <= i < left ==> left_bytes[i] == first.paper_color,
                forall |i: int| 0 <= i < right ==> right_bytes[i] == first.paper_color,
                self.width == first.width, self.same_settings(first), self.errors == first.errors,
                insert_idx == ix(0, it.index(), nw),
                half_wide(self.seq(), first, nw, height as int, l, it.index()),
//@at begin 1
            let ghost prior = self.seq();
            let ghost i = it.index();
            proof { lemma_wide_place(prior, first, nw, height as int, l, i); }
//@at end 1
            proof {
                let at = ix(0, i, nw);
                assert(self.seq() =~= prior.subrange(0, at) + left_bytes@ + prior.subrange(at, at + ow) + right_bytes@ + prior.subrange(at + ow, prior.len() as int));
                lemma_wide(prior, self.seq(), first, nw, height as int, l, i, left_bytes@, right_bytes@);
            }
//@at after 1
        proof { lemma_wide_end(self.seq(), first, nw, height as int, l); }
//@end

    pub open spec fn widened(self, x: int, y: int, left: int) -> RGBA {
        if left <= x < left + self.width { self.px(x - left, y) } else { self.paper_color }
    }

    /// a picture that is whole and not completely outside
    pub open spec fn takes(self, x: u32, y: u32, width: u32, height: u32, pixels: Seq<RGBA>) -> bool {
        pixels.len() == width * height && x < self.width && (y < self.h() || self.auto_grow)
    }
    /// pixel (cx, cy) after a picture was drawn at (x, y)
    pub open spec fn drawn(self, cx: int, cy: int, x: int, y: int, width: int, height: int, pixels: Seq<RGBA>, multiply: bool) -> RGBA {
        let below = self.paper(cx, cy);
        if x <= cx < x + width && y <= cy < y + height {
            let top = pixels[ix(cx - x, cy - y, width)];
            if multiply { times(below, top) } else { over(below, top) }
        } else { below }
    }
}

proof fn lemma_zero(w: int)
    ensures w * 0 == 0
{}
proof fn lemma_rows_of(w: int, h: int, n: int)
    requires 0 <= w, 0 <= h, 0 <= n
    ensures w > 0 ==> (w * h >= w * n <==> h >= n), w == 0 ==> w * h == 0 && w * n == 0, w > 0 ==> (w * n) / w == n, 0 <= w * n
{
    if w > 0 {
        assert(w * h >= w * n <==> h >= n) by (nonlinear_arith) requires w > 0;
        lemma_fundamental_div_mod_converse(w * n, w, n, 0);
        assert(n * w + 0 == w * n) by (nonlinear_arith);
    } else {
        assert(w * h == 0 && w * n == 0) by (nonlinear_arith) requires w == 0;
    }
    assert(0 <= w * n) by (nonlinear_arith) requires 0 <= w, 0 <= n;
}
proof fn lemma_row(y: int, w: int, h: int)
    requires 0 <= y < h, 0 <= w
    ensures 0 <= y * w <= w * h
{ assert(0 <= y * w <= w * h) by (nonlinear_arith) requires 0 <= y < h, 0 <= w; }
proof fn lemma_split(x: int, y: int, w: int, h: int)
    requires 0 <= x < w
    ensures y < h ==> ix(x, y, w) < w * h, y >= h ==> ix(x, y, w) >= w * h
{
    reveal(ix);
    if y < h { assert(y * w + x < w * h) by (nonlinear_arith) requires 0 <= x < w, y < h; }
    else { assert(y * w + x >= w * h) by (nonlinear_arith) requires 0 <= x < w, y >= h; }
}
proof fn lemma_less(a: int, w: int, b: int, h: int)
    requires 0 <= a <= w, 0 <= b <= h
    ensures 0 <= a * b <= w * h
{
    assert(0 <= a * b <= w * h) by (nonlinear_arith) requires 0 <= a <= w, 0 <= b <= h;
}
/// the place i of a picture and the one after it
proof fn lemma_step(i: int, w: int, h: int, x: int, y: int)
    requires 0 <= i < w * h, 0 <= w, 0 <= h, w > 0 ==> i == ix(x, y, w) && 0 <= x < w && 0 <= y
    ensures w > 0, h > 0, y < h, x + 1 < w ==> i + 1 == ix(x + 1, y, w), x + 1 == w ==> i + 1 == ix(0, y + 1, w)
{
    reveal(ix);
    assert(w > 0 && h > 0) by (nonlinear_arith) requires 0 <= i < w * h, 0 <= w, 0 <= h;
    lemma_split(x, y, w, h);
    assert((y + 1) * w == y * w + w) by (nonlinear_arith);
}
/// the rows before i, and the first j pixels of row i, were exchanged with the rows they mirror
#[verifier::opaque]
spec fn turned_over(now: Seq<RGBA>, first: Seq<RGBA>, w: int, h: int, i: int, j: int) -> bool {
    forall |a: int, b: int| 0 <= a < w && 0 <= b < h ==> #[trigger] now[ix(a, b, w)] == (
        if b < i || h - 1 - b < i || (a < j && (b == i || h - 1 - b == i)) { first[ix(a, h - 1 - b, w)] } else { first[ix(a, b, w)] })
}
proof fn lemma_turn_over(prior: Seq<RGBA>, now: Seq<RGBA>, first: Seq<RGBA>, w: int, h: int, i: int, j: int)
    requires prior.len() == w * h, 0 <= j < w, 0 <= i < h / 2, turned_over(prior, first, w, h, i, j),
        now == prior.update(ix(j, i, w), prior[ix(j, h - 1 - i, w)]).update(ix(j, h - 1 - i, w), prior[ix(j, i, w)])
    ensures turned_over(now, first, w, h, i, j + 1)
{
    reveal(turned_over);
    lemma_ix(w, h);
    assert forall |a: int, b: int| 0 <= a < w && 0 <= b < h implies #[trigger] now[ix(a, b, w)] == (
        if b < i || h - 1 - b < i || (a < j + 1 && (b == i || h - 1 - b == i)) { first[ix(a, h - 1 - b, w)] } else { first[ix(a, b, w)] }) by {
        assert(prior[ix(a, b, w)] == prior[ix(a, b, w)]);
        if a == j && b == i {
            assert(prior[ix(j, h - 1 - i, w)] == first[ix(j, h - 1 - i, w)]);
        } else if a == j && b == h - 1 - i {
            assert(prior[ix(j, i, w)] == first[ix(j, i, w)]);
        } else {
            assert(now[ix(a, b, w)] == prior[ix(a, b, w)]);
        }
    }
}
proof fn lemma_row_done(now: Seq<RGBA>, first: Seq<RGBA>, w: int, h: int, i: int)
    requires turned_over(now, first, w, h, i, w), 
    ensures turned_over(now, first, w, h, i + 1, 0)
{ reveal(turned_over); }

/// the first i rows were widened
#[verifier::opaque]
spec fn half_wide(now: Seq<RGBA>, first: ThermalImage, nw: int, h: int, l: int, i: int) -> bool {
    let ow = first.width as int;
    now.len() == ix(0, i, nw) + ix(0, h - i, ow)
    && (forall |x: int, y: int| 0 <= x < nw && 0 <= y < i ==> now[#[trigger] ix(x, y, nw)] == first.widened(x, y, l))
    && (forall |x: int, y: int| 0 <= x < ow && i <= y < h ==> #[trigger] first.px(x, y) == now[ix(0, i, nw) + ix(x, y - i, ow)])
}
proof fn lemma_wide_start(first: ThermalImage, nw: int, h: int, l: int)
    requires first.wf(), h == first.h()
    ensures half_wide(first.seq(), first, nw, h, l, 0), ix(0, 0, nw) == 0
{
    reveal(half_wide);
    reveal(ix);
    lemma_swap(first.width as int, h);
}
proof fn lemma_wide_place(now: Seq<RGBA>, first: ThermalImage, nw: int, h: int, l: int, i: int)
    requires 0 <= i < h, first.width <= nw, 0 <= nw, half_wide(now, first, nw, h, l, i)
    ensures now.len() == ix(0, i, nw) + ix(0, h - i, first.width as int), 0 <= ix(0, i, nw), first.width <= ix(0, h - i, first.width as int),
        ix(0, i + 1, nw) == ix(0, i, nw) + nw, ix(0, i + 1, nw) <= nw * h,
{
    reveal(half_wide);
    reveal(ix);
    let ow = first.width as int;
    lemma_row(i, nw, h);
    assert((h - i) * ow >= ow) by (nonlinear_arith) requires h - i >= 1, ow >= 0;
    assert((i + 1) * nw == i * nw + nw) by (nonlinear_arith);
    assert((i + 1) * nw <= nw * h) by (nonlinear_arith) requires 0 <= i < h, 0 <= nw;
}
proof fn lemma_wide(prior: Seq<RGBA>, now: Seq<RGBA>, first: ThermalImage, nw: int, h: int, l: int, i: int, left: Seq<RGBA>, right: Seq<RGBA>)
    requires first.wf(), h == first.h(), 0 <= i < h, 0 <= l, left.len() == l, first.width <= nw, l + first.width + right.len() == nw,
        forall |k: int| 0 <= k < left.len() ==> left[k] == first.paper_color,
        forall |k: int| 0 <= k < right.len() ==> right[k] == first.paper_color,
        half_wide(prior, first, nw, h, l, i),
        now == prior.subrange(0, ix(0, i, nw)) + left + prior.subrange(ix(0, i, nw), ix(0, i, nw) + first.width) + right
            + prior.subrange(ix(0, i, nw) + first.width, prior.len() as int),
    ensures half_wide(now, first, nw, h, l, i + 1)
{
    lemma_wide_place(prior, first, nw, h, l, i);
    reveal(half_wide);
    let ow = first.width as int;
    let at = ix(0, i, nw);
    assert(ix(0, h - i, ow) == ix(0, h - (i + 1), ow) + ow) by {
        reveal(ix);
        assert((h - i) * ow == (h - (i + 1)) * ow + ow) by (nonlinear_arith);
    }
    assert forall |x: int, y: int| 0 <= x < nw && 0 <= y < i + 1 implies now[#[trigger] ix(x, y, nw)] == first.widened(x, y, l) by {
        reveal(ix);
        lemma_swap(nw, i);
        if y < i {
            lemma_split(x, y, nw, i);
            lemma_ix(nw, i);
            assert(now[ix(x, y, nw)] == prior[ix(x, y, nw)]);
        } else {
            assert(ix(x, y, nw) == at + x);
            if l <= x < l + ow {
                assert(first.px(x - l, y) == prior[at + ix(x - l, 0, ow)]);
                assert(ix(x - l, 0, ow) == x - l);
                assert(now[at + x] == prior[at + (x - l)]);
            } else if x < l {
                assert(now[at + x] == left[x]);
            } else {
                assert(now[at + x] == right[x - l - ow]);
            }
        }
    }
    assert forall |x: int, y: int| 0 <= x < ow && i + 1 <= y < h implies #[trigger] first.px(x, y) == now[ix(0, i + 1, nw) + ix(x, y - (i + 1), ow)] by {
        reveal(ix);
        assert(first.px(x, y) == prior[at + ix(x, y - i, ow)]);
        assert((y - i) * ow == (y - (i + 1)) * ow + ow) by (nonlinear_arith);
        assert(ix(x, y - i, ow) == ix(x, y - (i + 1), ow) + ow);
        lemma_split(x, y - i, ow, h - i);
        lemma_swap(ow, h - i);
        assert(ix(x, y - i, ow) < ix(0, h - i, ow));
        assert(0 <= ix(x, y - (i + 1), ow)) by { lemma_ix(ow, h); };
        assert(now[at + nw + ix(x, y - (i + 1), ow)] == prior[at + ow + ix(x, y - (i + 1), ow)]);
    }
}
proof fn lemma_wide_end(now: Seq<RGBA>, first: ThermalImage, nw: int, h: int, l: int)
    requires first.wf(), h == first.h(), half_wide(now, first, nw, h, l, h), first.width <= nw <= u32::MAX, nw * h <= u32::MAX,
    ensures now.len() == nw * h, hgt(nw as u32, now.len()) == (if nw == 0 { 0 } else { h }), nw == 0 ==> h == 0,
        forall |x: int, y: int| 0 <= x < nw && 0 <= y < h ==> now[#[trigger] ix(x, y, nw)] == first.widened(x, y, l),
{
    reveal(half_wide);
    lemma_h(first.width as int, h, first.bytes.len() as int);
    reveal(ix);
    lemma_swap(nw, h);
    assert(ix(0, 0, first.width as int) == 0);
    lemma_rows_of(nw, h, h);
}

/// the first n pixels of a picture are drawn
#[verifier::opaque]
spec fn partly(now: ThermalImage, canvas: ThermalImage, x: int, y: int, fw: int, fh: int, pic: Seq<RGBA>, n: int, multiply: bool) -> bool {
    forall |cx: int, cy: int| 0 <= cx < canvas.width && 0 <= cy < canvas.h() ==> #[trigger] now.px(cx, cy) == (
        if x <= cx < x + fw && y <= cy < y + fh && ix(cx - x, cy - y, fw) < n {
            if multiply { times(canvas.px(cx, cy), pic[ix(cx - x, cy - y, fw)]) } else { over(canvas.px(cx, cy), pic[ix(cx - x, cy - y, fw)]) }
        } else { canvas.px(cx, cy) })
}
proof fn lemma_none(canvas: ThermalImage, x: int, y: int, fw: int, fh: int, pic: Seq<RGBA>, multiply: bool)
    ensures partly(canvas, canvas, x, y, fw, fh, pic, 0, multiply), ix(0, 0, fw) == 0
{
    reveal(partly);
    lemma_ix(fw, fh);
    reveal(ix);
}
proof fn lemma_write(now: ThermalImage, prior: ThermalImage, canvas: ThermalImage, x: int, y: int, fw: int, fh: int, pic: Seq<RGBA>, i: int, cx0: int, cy0: int, multiply: bool)
    requires
        prior.width == canvas.width, now.width == canvas.width, canvas.wf(), prior.bytes.len() == canvas.bytes.len(), now.bytes.len() == canvas.bytes.len(),
        0 <= cx0 < canvas.width, 0 <= cy0 < canvas.h(), x <= cx0 < x + fw, y <= cy0 < y + fh, 0 <= i < pic.len(), i == ix(cx0 - x, cy0 - y, fw),
        forall |k: int| 0 <= k < now.bytes.len() && k != ix(cx0, cy0, canvas.width as int) ==> #[trigger] now.bytes[k] == prior.bytes[k],
        now.px(cx0, cy0) == if multiply { times(prior.px(cx0, cy0), pic[i]) } else { over(prior.px(cx0, cy0), pic[i]) },
        partly(prior, canvas, x, y, fw, fh, pic, i, multiply),
    ensures partly(now, canvas, x, y, fw, fh, pic, i + 1, multiply)
{
    reveal(partly);
    let w = canvas.width as int;
    lemma_ix(fw, fh);
    lemma_ix(w, canvas.h());
    assert forall |cx: int, cy: int| 0 <= cx < canvas.width && 0 <= cy < canvas.h() implies #[trigger] now.px(cx, cy) == (
        if x <= cx < x + fw && y <= cy < y + fh && ix(cx - x, cy - y, fw) < i + 1 {
            if multiply { times(canvas.px(cx, cy), pic[ix(cx - x, cy - y, fw)]) } else { over(canvas.px(cx, cy), pic[ix(cx - x, cy - y, fw)]) }
        } else { canvas.px(cx, cy) }) by {
        assert(prior.px(cx, cy) == prior.px(cx, cy));
        assert(0 <= ix(cx, cy, w) < now.bytes.len());
        if cx == cx0 && cy == cy0 {
        } else {
            assert(ix(cx, cy, w) != ix(cx0, cy0, w));
            assert(now.px(cx, cy) == prior.px(cx, cy));
            if x <= cx < x + fw && y <= cy < y + fh {
                assert(ix(cx - x, cy - y, fw) != ix(cx0 - x, cy0 - y, fw));
            }
        }
    }
}
proof fn lemma_drawn(before: ThermalImage, after: ThermalImage, canvas: ThermalImage, x: int, y: int, width: int, height: int,
        fw: int, fh: int, given: Seq<RGBA>, pic: Seq<RGBA>, multiply: bool)
    requires
        after.width == before.width, canvas.width == before.width, after.h() == canvas.h(),
        partly(after, canvas, x, y, fw, fh, pic, pic.len() as int, multiply),
        0 <= x, 0 <= y, 0 <= fw <= width, 0 <= fh <= height, pic.len() == fw * fh,
        forall |i: int, j: int| 0 <= i < fw && 0 <= j < fh ==> pic[#[trigger] ix(i, j, fw)] == given[ix(i, j, width)],
        forall |cx: int, cy: int| 0 <= cx < before.width && 0 <= cy < canvas.h() ==> #[trigger] canvas.px(cx, cy) == before.paper(cx, cy),
        fw < width ==> x + fw == before.width,
        fh < height ==> y + fh == canvas.h(),
    ensures
        forall |cx: int, cy: int| 0 <= cx < before.width && 0 <= cy < after.h() ==>
            #[trigger] after.px(cx, cy) == before.drawn(cx, cy, x, y, width, height, given, multiply),
{
    reveal(partly);
    lemma_ix(fw, fh);
    assert forall |cx: int, cy: int| 0 <= cx < before.width && 0 <= cy < after.h() implies
        #[trigger] after.px(cx, cy) == before.drawn(cx, cy, x, y, width, height, given, multiply) by {
        assert(canvas.px(cx, cy) == before.paper(cx, cy));
        if x <= cx < x + fw && y <= cy < y + fh {
            assert(ix(cx - x, cy - y, fw) < fw * fh);
        }
    }
}

// ---------------------------------------------------------------- turns

pub open spec fn turn90(a: Seq<RGBA>, w: int, h: int, b: Seq<RGBA>) -> bool {
    b.len() == a.len() && forall |x: int, y: int| 0 <= x < h && 0 <= y < w ==> b[#[trigger] ix(x, y, h)] == a[ix(y, h - 1 - x, w)]
}
pub open spec fn turn180(a: Seq<RGBA>, w: int, h: int, b: Seq<RGBA>) -> bool {
    b.len() == a.len() && forall |x: int, y: int| 0 <= x < w && 0 <= y < h ==> b[#[trigger] ix(x, y, w)] == a[ix(w - 1 - x, h - 1 - y, w)]
}
pub open spec fn turn270(a: Seq<RGBA>, w: int, h: int, b: Seq<RGBA>) -> bool {
    b.len() == a.len() && forall |x: int, y: int| 0 <= x < h && 0 <= y < w ==> b[#[trigger] ix(x, y, h)] == a[ix(w - 1 - y, x, w)]
}

proof fn lemma_h(w: int, h: int, n: int)
    requires n == w * h, 0 <= n <= u32::MAX, 0 <= w <= u32::MAX, 0 <= h, h == (if w == 0 { 0int } else { n / w })
    ensures 0 <= h <= n
{
    if w > 0 { assert(h <= n) by (nonlinear_arith) requires n == w * h, w > 0, h >= 0; }
}
proof fn lemma_swap(w: int, h: int)
    ensures w * h == h * w
{ assert(w * h == h * w) by (nonlinear_arith); }

/// the size after a quarter turn
proof fn lemma_turned(w: int, h: int)
    requires 0 <= w <= u32::MAX, 0 <= h <= u32::MAX
    ensures h > 0 ==> (w * h) / h == w, h == 0 ==> w * h == 0, w * h == h * w
{
    lemma_swap(w, h);
    if h > 0 { lemma_fundamental_div_mod_converse(w * h, h, w, 0); }
    else { assert(w * h == 0) by (nonlinear_arith) requires h == 0; }
}

/// a picture is determined by its pixels
proof fn lemma_same(a: Seq<RGBA>, b: Seq<RGBA>, w: int, h: int)
    requires a.len() == b.len(), a.len() == w * h, w > 0,
        forall |x: int, y: int| 0 <= x < w && 0 <= y < h ==> a[#[trigger] ix(x, y, w)] == b[ix(x, y, w)],
    ensures a =~= b
{
    assert forall |i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        lemma_place(i, w, h);
        assert(a[ix(i % w, i / w, w)] == b[ix(i % w, i / w, w)]);
    }
}

proof fn two_quarters(a: Seq<RGBA>, b: Seq<RGBA>, c: Seq<RGBA>, w: int, h: int)
    requires a.len() == w * h, w > 0, h > 0, turn90(a, w, h, b), turn90(b, h, w, c)
    ensures turn180(a, w, h, c)
{}
proof fn two_halves(a: Seq<RGBA>, b: Seq<RGBA>, c: Seq<RGBA>, w: int, h: int)
    requires a.len() == w * h, w > 0, h > 0, turn180(a, w, h, b), turn180(b, w, h, c)
    ensures a == c
{ lemma_same(a, c, w, h); }
proof fn turn_and_back(a: Seq<RGBA>, b: Seq<RGBA>, c: Seq<RGBA>, w: int, h: int)
    requires a.len() == w * h, w > 0, h > 0, turn90(a, w, h, b), turn270(b, h, w, c)
    ensures a == c
{ lemma_same(a, c, w, h); }
proof fn back_and_turn(a: Seq<RGBA>, b: Seq<RGBA>, c: Seq<RGBA>, w: int, h: int)
    requires a.len() == w * h, w > 0, h > 0, turn270(a, w, h, b), turn90(b, h, w, c)
    ensures a == c
{ lemma_same(a, c, w, h); }
proof fn four_quarters(a: Seq<RGBA>, b: Seq<RGBA>, c: Seq<RGBA>, d: Seq<RGBA>, e: Seq<RGBA>, w: int, h: int)
    requires a.len() == w * h, w > 0, h > 0, turn90(a, w, h, b), turn90(b, h, w, c), turn90(c, w, h, d), turn90(d, h, w, e)
    ensures a == e
{
    two_quarters(a, b, c, w, h);
    two_quarters(c, d, e, w, h);
    two_halves(a, c, e, w, h);
}
}
fn main() {}
