// Whole-peripheral operations: finding by name, re-pointing derivations.
//@wrap enumerate iter_mut find iter
verus! {
// TRUSTED (std)
pub assume_specification<T> [core::mem::replace::<T>](dest: &mut T, src: T) -> (r: T) ensures r == *old(dest), *final(dest) == src;
pub trait IterMutX<T> { fn iter_mut_v<'a>(&'a mut self) -> Vec<&'a mut T>; }
impl<T> IterMutX<T> for Vec<T> {
    #[verifier::external_body]
    fn iter_mut_v<'a>(&'a mut self) -> (r: Vec<&'a mut T>)
        ensures r@.len() == old(self)@.len(), final(self)@.len() == old(self)@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger final(self)@[i]] #![trigger old(self)@[i]] 0 <= i < r@.len() ==> *r@[i] == old(self)@[i] && *final(r@[i]) == final(self)@[i]
    { self.iter_mut().collect() }
}
pub trait IterX<T> { fn iter_v<'a>(&'a self) -> Vec<&'a T>; }
impl<T> IterX<T> for Vec<T> {
    #[verifier::external_body]
    fn iter_v<'a>(&'a self) -> (r: Vec<&'a T>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i] { self.iter().collect() }
}
pub trait EnumX<T> { fn enumerate_v(self) -> Vec<(usize, T)>; }
impl<T> EnumX<T> for Vec<T> {
    #[verifier::external_body]
    fn enumerate_v(self) -> (r: Vec<(usize, T)>)
        ensures r@.len() == self@.len(), r@.len() < usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i].0 == i && r@[i].1 == self@[i]
    { self.into_iter().enumerate().collect() }
}
// references given back unused leave what they refer to
pub trait FindX<T> { fn find_v<F: FnMut(&T) -> bool>(self, f: F) -> Option<T> where Self: Sized; }
impl<'a, T> FindX<(usize, &'a mut T)> for Vec<(usize, &'a mut T)> {
    #[verifier::external_body]
    fn find_v<F: FnMut(&(usize, &'a mut T)) -> bool>(self, f: F) -> (r: Option<(usize, &'a mut T)>)
        ensures match r {
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false) && *final(self@[i].1) == *self@[i].1,
            Some(x) => exists|k: int| 0 <= k < self@.len() && #[trigger] self@[k] == x && f.ensures((&self@[k],), true)
                && forall|i: int| #![trigger self@[i]] (0 <= i < k ==> f.ensures((&self@[i],), false)) && (0 <= i < self@.len() && i != k ==> *final(self@[i].1) == *self@[i].1) }
    { unimplemented!() }
}
impl<'a, T> FindX<(usize, &'a T)> for Vec<(usize, &'a T)> {
    #[verifier::external_body]
    fn find_v<F: FnMut(&(usize, &'a T)) -> bool>(self, f: F) -> (r: Option<(usize, &'a T)>)
        ensures match r {
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false),
            Some(x) => exists|k: int| 0 <= k < self@.len() && #[trigger] self@[k] == x && f.ensures((&self@[k],), true) && forall|i: int| #![trigger self@[i]] 0 <= i < k ==> f.ensures((&self@[i],), false) }
    { unimplemented!() }
}
#[verifier::prophetic]
pub open spec fn mut_named<T: HasName>(x: (usize, &mut T), n: Seq<char>) -> bool { (*x.1).nm() == n }
pub open spec fn moved<T>(u: Seq<T>, from: int, to: int) -> Seq<T> { if from > to { u.remove(from).insert(to, u[from]) } else { u } }

// ---- derivations of peripherals ----
pub open spec fn derives(p: Peripheral, n: Seq<char>) -> bool { match ma(p).derived_from { Some(s) => s@ == n, None => false } }
// a peripheral derived from `a` is derived from `b` afterwards
pub open spec fn repointed(x: Peripheral, y: Peripheral, a: Seq<char>, b: Seq<char>) -> bool {
    if derives(x, a) { ma_shape(y, x) && $but(per, ma(y), ma(x), derived_from) && derives(y, b) } else { y == x }
}
pub open spec fn repointed_s(s: Seq<Peripheral>, t: Seq<Peripheral>, a: Seq<char>, b: Seq<char>) -> bool {
    t.len() == s.len() && forall|i: int| #![trigger t[i]] #![trigger s[i]] 0 <= i < s.len() ==> repointed(s[i], t[i], a, b)
}
// the least of `from` and the positions below n of those derived from a
pub open spec fn min_dep(s: Seq<Peripheral>, a: Seq<char>, from: int, n: int) -> int decreases n {
    if n <= 0 { from } else { let m = min_dep(s, a, from, n - 1); if derives(s[n - 1], a) && n - 1 < m { n - 1 } else { m } }
}
pub proof fn lemma_min_dep(s: Seq<Peripheral>, a: Seq<char>, from: int, n: int)
    requires 0 <= n <= s.len(), 0 <= from
    ensures 0 <= min_dep(s, a, from, n) <= from, forall|i: int| 0 <= i < n && derives(#[trigger] s[i], a) ==> min_dep(s, a, from, n) <= i,
        min_dep(s, a, from, n) == from || (min_dep(s, a, from, n) < n && derives(s[min_dep(s, a, from, n)], a)),
    decreases n
{ if n > 0 { lemma_min_dep(s, a, from, n - 1); } }
}
