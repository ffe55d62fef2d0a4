verus! {
/// bytes of a row of w bits
pub open spec fn bpr(w: int) -> int { (w + 7) / 8 }
/// bit k of b, most significant first, as opacity
pub open spec fn bit_val(b: u8, k: int) -> u8 { if b & (1u8 << ((7 - k) as u8)) != 0 { 255u8 } else { 0u8 } }
/// opacity of column x of row y of bit packed rows of w bits
pub open spec fn bit_at(data: Seq<u8>, w: int, x: int, y: int) -> u8 { bit_val(data[ix(x / 8, y, bpr(w))], x % 8) }
/// whole rows in n bytes
pub open spec fn rows(n: int, w: int) -> int { n / bpr(w) }
}
