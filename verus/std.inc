verus! {
// contracts assumed on std: what the documentation of these functions says
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r.len() == s.len(), forall |i: int| 0 <= i < s.len() ==> vstd::pervasive::cloned::<T>(s[i], #[trigger] r[i]);
}
verus! {
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s).len(), b < old(s).len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)[b as int]).update(b as int, old(s)[a as int]);
}
