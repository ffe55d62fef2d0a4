use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
verus! {
global size_of usize == 8;

/// where the pixel (x, y) of a picture of width w is kept
#[verifier::opaque]
pub open spec fn ix(x: int, y: int, w: int) -> int { y * w + x }

/// places of different pixels are different, and inside
pub proof fn lemma_ix(w: int, h: int)
    ensures
        forall |x: int, y: int| 0 <= x < w && 0 <= y < h ==> 0 <= #[trigger] ix(x, y, w) < w * h,
        forall |x: int, y: int, x2: int, y2: int| 0 <= x < w && 0 <= y && 0 <= x2 < w && 0 <= y2
            && #[trigger] ix(x, y, w) == #[trigger] ix(x2, y2, w) ==> x == x2 && y == y2,
{
    reveal(ix);
    assert forall |x: int, y: int| 0 <= x < w && 0 <= y < h implies 0 <= #[trigger] ix(x, y, w) < w * h by {
        assert(0 <= y * w + x < w * h) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h;
    }
    assert forall |x: int, y: int, x2: int, y2: int| 0 <= x < w && 0 <= y && 0 <= x2 < w && 0 <= y2
            && #[trigger] ix(x, y, w) == #[trigger] ix(x2, y2, w) implies x == x2 && y == y2 by {
        assert(y == y2) by (nonlinear_arith) requires 0 <= x < w, 0 <= x2 < w, y * w + x == y2 * w + x2;
        assert(x == x2) by (nonlinear_arith) requires y == y2, y * w + x == y2 * w + x2;
    }
}

/// every place belongs to a pixel
pub proof fn lemma_place(i: int, w: int, h: int)
    requires 0 <= i < w * h, w > 0
    ensures 0 <= i % w < w, 0 <= i / w < h, ix(i % w, i / w, w) == i
{
    reveal(ix);
    lemma_fundamental_div_mod(i, w);
    lemma_mod_bound(i, w);
    assert(0 <= i / w < h) by (nonlinear_arith)
        requires i == w * (i / w) + i % w, 0 <= i % w < w, 0 <= i < w * h, w > 0;
    assert((i / w) * w + i % w == i) by (nonlinear_arith) requires i == w * (i / w) + i % w;
}

/// a place computed with machine arithmetic
pub proof fn lemma_machine(x: int, y: int, w: int, h: int)
    requires 0 <= x < w, 0 <= y < h, 0 <= w <= u32::MAX, 0 <= h <= u32::MAX
    ensures 0 <= y * w <= y * w + x < w * h, w * h <= u64::MAX, ix(x, y, w) == y * w + x
{
    reveal(ix);
    assert(0 <= y * w + x < w * h) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h;
    assert(0 <= y * w) by (nonlinear_arith) requires 0 <= w, 0 <= y;
    assert(w * h <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= w <= 0xffff_ffff, 0 <= h <= 0xffff_ffff;
}

pub proof fn lemma_area(w: int, h: int)
    requires 0 <= w <= u32::MAX, 0 <= h <= u32::MAX
    ensures 0 <= w * h <= u64::MAX
{
    assert(0 <= w * h <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= w <= 0xffff_ffff, 0 <= h <= 0xffff_ffff;
}
}
