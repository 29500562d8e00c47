// adding_pos: after the last of the elements with the greatest key not above the new one's.
//@wrap enumerate
verus! {
pub trait NumX { spec fn num(self) -> int; }
impl NumX for u32 { open spec fn num(self) -> int { self as int } }
impl NumX for u64 { open spec fn num(self) -> int { self as int } }
// TRUSTED wrappers (std)
pub trait IntoIterX<'a, T> { fn into_iter_v(self) -> Vec<&'a T>; }
impl<'a, T> IntoIterX<'a, T> for &'a Vec<T> {
    #[verifier::external_body]
    fn into_iter_v(self) -> (r: Vec<&'a T>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i] { self.into_iter().collect() }
}
pub trait EnumX<T> { fn enumerate_v(self) -> Vec<(usize, T)>; }
impl<T> EnumX<T> for Vec<T> {
    #[verifier::external_body]
    fn enumerate_v(self) -> (r: Vec<(usize, T)>)
        ensures r@.len() == self@.len(), r@.len() < usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i].0 == i && r@[i].1 == self@[i]
    { self.into_iter().enumerate().collect() }
}
pub trait FiltX<T> { fn filter_g<F: FnMut(&T) -> bool>(self, p: Ghost<spec_fn(T) -> bool>, f: F) -> Vec<T> where Self: Sized requires forall|x: &T, b: bool| f.ensures((x,), b) ==> b == (p@)(*x);
    fn max_by_key_g<U: NumX, F: FnMut(&T) -> U>(self, k: Ghost<spec_fn(T) -> int>, f: F) -> Option<T> where Self: Sized requires forall|x: &T, b: U| f.ensures((x,), b) ==> b.num() == (k@)(*x); }
pub open spec fn last_max<T>(s: Seq<T>, k: spec_fn(T) -> int, r: Option<T>) -> bool {
    match r { None => s.len() == 0, Some(x) => exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == x && forall|i: int| 0 <= i < s.len() ==> k(#[trigger] s[i]) <= k(x) && (i > j ==> k(s[i]) < k(x)) }
}
impl<T> FiltX<T> for Vec<T> {
    #[verifier::external_body]
    fn filter_g<F: FnMut(&T) -> bool>(self, p: Ghost<spec_fn(T) -> bool>, f: F) -> (r: Vec<T>)
        ensures r@ == self@.filter(p@)
    { unimplemented!() }
    #[verifier::external_body]
    fn max_by_key_g<U: NumX, F: FnMut(&T) -> U>(self, k: Ghost<spec_fn(T) -> int>, f: F) -> (r: Option<T>)
        ensures last_max(self@, k@, r)
    { unimplemented!() }
}
pub open spec fn kx<'b, T>(k: spec_fn(T) -> int) -> spec_fn((usize, &'b T)) -> int { |x: (usize, &'b T)| k(*x.1) }
pub open spec fn lex<'b, T>(k: spec_fn(T) -> int, a: int) -> spec_fn((usize, &'b T)) -> bool { |x: (usize, &'b T)| k(*x.1) <= a }
pub open spec fn enumd<T>(s: Seq<T>, e: Seq<(usize, &T)>) -> bool { e.len() == s.len() && forall|i: int| #![trigger e[i]] #![trigger s[i]] 0 <= i < e.len() ==> e[i].0 == i && *e[i].1 == s[i] }
pub open spec fn pos_of<T>(r: Option<(usize, &T)>) -> int { match r { Some(x) => x.0 + 1, None => 0 } }
// the elements a filter keeps, in order
pub proof fn lemma_filter_idx<T>(e: Seq<(usize, &T)>, p: spec_fn((usize, &T)) -> bool)
    requires forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 == i
    ensures forall|j: int| 0 <= j < e.filter(p).len() ==> p(#[trigger] e.filter(p)[j]) && 0 <= e.filter(p)[j].0 < e.len() && e[e.filter(p)[j].0 as int] == e.filter(p)[j],
        forall|j: int, k: int| 0 <= j < k < e.filter(p).len() ==> (#[trigger] e.filter(p)[j]).0 < (#[trigger] e.filter(p)[k]).0,
    decreases e.len()
{
    reveal(Seq::filter);
    if e.len() > 0 {
        let d = e.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 == i by { assert(d[i] == e[i]); }
        lemma_filter_idx(d, p);
        let f = d.filter(p); let g = e.filter(p);
        assert forall|j: int| 0 <= j < g.len() implies p(#[trigger] g[j]) && 0 <= g[j].0 < e.len() && e[g[j].0 as int] == g[j] by { if j < f.len() { assert(g[j] == f[j]); assert(d[f[j].0 as int] == e[f[j].0 as int]); } else { assert(g[j] == e[e.len() - 1]); } }
        assert forall|j: int, k: int| 0 <= j < k < g.len() implies (#[trigger] g[j]).0 < (#[trigger] g[k]).0 by { assert(g[j] == f[j]); if k < f.len() { assert(g[k] == f[k]); } else { assert(g[k] == e[e.len() - 1]); } }
    }
}
pub proof fn lemma_filter_in<T>(e: Seq<T>, p: spec_fn(T) -> bool, i: int) -> (j: int)
    requires 0 <= i < e.len(), p(e[i])
    ensures 0 <= j < e.filter(p).len(), e.filter(p)[j] == e[i]
    decreases e.len()
{
    reveal(Seq::filter);
    let d = e.drop_last();
    if i < d.len() { assert(d[i] == e[i]); let j = lemma_filter_in(d, p, i); assert(e.filter(p)[j] == d.filter(p)[j]); j } else { e.filter(p).len() - 1 }
}
pub proof fn lemma_adding<T>(s: Seq<T>, e: Seq<(usize, &T)>, k: spec_fn(T) -> int, a: int)
    requires enumd(s, e)
    ensures forall|r: Option<(usize, &T)>| #[trigger] last_max(e.filter(lex(k, a)), kx(k), r) ==> adding(keys(s, k), a, pos_of(r)) && (r is Some ==> r.unwrap().0 < e.len())
{
    let p = lex(k, a); let f = e.filter(p);
    lemma_filter_idx(e, p);
    assert forall|r: Option<(usize, &T)>| #[trigger] last_max(f, kx(k), r) implies adding(keys(s, k), a, pos_of(r)) && (r is Some ==> r.unwrap().0 < e.len()) by {
        let ks = keys(s, k); let n = pos_of(r);
        match r {
            None => { assert forall|i: int| 0 <= i < ks.len() && #[trigger] ks[i] <= a implies false by { assert(p(e[i])); let m = lemma_filter_in(e, p, i); } }
            Some(x) => {
                let j = choose|j: int| 0 <= j < f.len() && #[trigger] f[j] == x && forall|i: int| 0 <= i < f.len() ==> kx(k)(#[trigger] f[i]) <= kx(k)(x) && (i > j ==> kx(k)(f[i]) < kx(k)(x));
                assert(e[x.0 as int] == x); assert(ks[n - 1] == k(*x.1));
                assert forall|i: int| 0 <= i < ks.len() && #[trigger] ks[i] <= a implies ks[i] <= ks[n - 1] && (i >= n ==> ks[i] < ks[n - 1]) by {
                    assert(p(e[i])); let m = lemma_filter_in(e, p, i);
                    assert(kx(k)(f[m]) <= kx(k)(x));
                    if i >= n { assert(f[m].0 > f[j].0); if m < j { assert(f[m].0 < f[j].0); } assert(m > j); }
                }
            }
        }
    }
}
//@each U: u32 u64
//@fn src/patch/mod.rs | adding_pos
//@name adding_pos_$U
//@sig pub fn adding_pos_$U<'a, T, F: Fn(&'a T) -> $U>(k: Ghost<spec_fn(T) -> int>, new: &'a T, iter: &'a Vec<T>, f: F) -> (r: usize)
//@sub iter.into_iter() .enumerate() =>> { let e_ = iter.into_iter_v().enumerate_v(); proof { assert(enumd(iter@, e_@)); lemma_adding(iter@, e_@, k@, address as int); } e_ }
//@sub .filter( =>> .filter_g(Ghost(lex(k@, address as int)), 
//@sub .max_by_key( =>> .max_by_key_g(Ghost(kx(k@)), 
//@spec
    requires forall|x: &'a T| f.requires((x,)), forall|x: &'a T, b: $U| f.ensures((x,), b) ==> b as int == (k@)(*x)
    ensures adding(keys(iter@, k@), (k@)(*new), r as int)
//@closure 1 |$1: &(usize, &'a T)| -> (b: bool)
    ensures b == lex(k@, address as int)(*$1)
//@closure 2 |$1: &(usize, &'a T)| -> (b: $U)
    ensures b.num() == kx(k@)(*$1)
//@closure 3 |$1: (usize, &'a T)| -> (b: usize)
    requires $1.0 < usize::MAX ensures b == $1.0 + 1
//@end
//@endeach
}
