// Lists and texts as the collecting functions use them (std).
//@wrap iter map collect find all sort_by_key swap_remove min into len ends_with to_string ok_or_else unwrap_or_default windows next contains_key to_yaml
verus! {
// TRUSTED (std)
pub open spec fn told<A, R, F: Fn(A) -> R>(f: F, s: Seq<A>, p: Seq<R>) -> bool { p.len() == s.len() && forall|i: int| #![trigger p[i]] 0 <= i < s.len() ==> f.ensures((s[i],), p[i]) }
pub open spec fn told_e<T, R, F: Fn(&T) -> R>(f: F, s: Seq<T>, p: Seq<R>) -> bool { p.len() == s.len() && forall|i: int| #![trigger p[i]] 0 <= i < s.len() ==> f.ensures((&s[i],), p[i]) }
pub open spec fn derefs<T>(v: Seq<&T>) -> Seq<T> { Seq::new(v.len(), |i: int| *v[i]) }
pub open spec fn same_refs<T>(v: Seq<&T>, s: Seq<T>) -> bool { derefs(v) == s && v.len() == s.len() && forall|i: int| #![trigger v[i]] 0 <= i < s.len() ==> *v[i] == s[i] }
pub open spec fn ascends(k: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> k[i] <= k[j] }
pub trait ListX<T> {
    spec fn elems(&self) -> Seq<T>;
    fn iter_v<'a>(&'a self) -> (r: Vec<&'a T>) ensures same_refs(r@, self.elems());
}
impl<T> ListX<T> for Vec<T> { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn iter_v<'a>(&'a self) -> (r: Vec<&'a T>) { self.iter().collect() } }
impl<T> ListX<T> for [T] { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn iter_v<'a>(&'a self) -> (r: Vec<&'a T>) { self.iter().collect() } }
pub trait MapX<A>: Sized { spec fn items(&self) -> Seq<A>; fn map_v<U, F: Fn(A) -> U>(self, f: F) -> (r: Vec<U>) requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((#[trigger] self.items()[i],)) ensures told(f, self.items(), r@); }
impl<'a, T: 'a> MapX<&'a T> for Vec<&'a T> { open spec fn items(&self) -> Seq<&'a T> { self@ } #[verifier::external_body] fn map_v<U, F: Fn(&'a T) -> U>(self, f: F) -> (r: Vec<U>) { unimplemented!() } }
impl MapX<usize> for core::ops::Range<usize> { open spec fn items(&self) -> Seq<usize> { Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) } #[verifier::external_body] fn map_v<U, F: Fn(usize) -> U>(self, f: F) -> (r: Vec<U>) { unimplemented!() } }
pub trait QueryX<'a, T: 'a>: Sized {
    fn find_v<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>);
    fn all_v<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool);
}
impl<'a, T: 'a> QueryX<'a, T> for Vec<&'a T> {
    #[verifier::external_body] fn find_v<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>)
        ensures match r { None => forall|i: int| #![trigger self@[i]] #![trigger derefs(self@)[i]] 0 <= i < self@.len() ==> f.ensures((&self@[i],), false), Some(x) => exists|i: int| 0 <= i < self@.len() && self@[i] == x && f.ensures((&#[trigger] self@[i],), true) } { unimplemented!() }
    #[verifier::external_body] fn all_v<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool)
        ensures r ==> forall|i: int| #![trigger self@[i]] #![trigger derefs(self@)[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), true), !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false) { unimplemented!() }
}
pub trait CollectX<T>: Sized { fn collect_v<C: FromV<T>>(self) -> (r: C) ensures C::came(self.all(), r); spec fn all(&self) -> Seq<T>; }
pub trait FromV<T>: Sized { spec fn came(v: Seq<T>, r: Self) -> bool; fn from_v(v: Vec<T>) -> (r: Self) ensures Self::came(v@, r); }
impl<T> FromV<T> for Vec<T> { open spec fn came(v: Seq<T>, r: Vec<T>) -> bool { r@ == v } fn from_v(v: Vec<T>) -> (r: Self) { v } }
impl<T, E> FromV<core::result::Result<T, E>> for core::result::Result<Vec<T>, E> {
    open spec fn came(v: Seq<core::result::Result<T, E>>, r: core::result::Result<Vec<T>, E>) -> bool { match r { Ok(w) => w@.len() == v.len() && forall|i: int| #![trigger w@[i]] #![trigger v[i]] 0 <= i < v.len() ==> v[i] == Ok::<T, E>(w@[i]), Err(_) => exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Err } }
    #[verifier::external_body] fn from_v(v: Vec<core::result::Result<T, E>>) -> (r: Self) { v.into_iter().collect() } }
impl<T> CollectX<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ } fn collect_v<C: FromV<T>>(self) -> (r: C) { C::from_v(self) } }
pub trait SortX<T> {
    fn sort_by_key_v<F: Fn(&T) -> u32>(&mut self, f: F);
    fn swap_remove_v(&mut self, i: usize) -> T;
}
impl<T> SortX<T> for Vec<T> {
    #[verifier::external_body] fn sort_by_key_v<F: Fn(&T) -> u32>(&mut self, f: F)
        ensures final(self)@.len() == old(self)@.len(), final(self)@.to_multiset() == old(self)@.to_multiset(), exists|k: Seq<u32>| #[trigger] told_e(f, final(self)@, k) && ascends(k) { self.sort_by_key(f) }
    #[verifier::external_body] fn swap_remove_v(&mut self, i: usize) -> (r: T) ensures i < old(self)@.len(), r == old(self)@[i as int], final(self)@.len() == old(self)@.len() - 1 { self.swap_remove(i) }
}
pub trait MinX { fn min_v(self, o: Self) -> Self; }
impl MinX for usize { #[verifier::external_body] fn min_v(self, o: usize) -> (r: usize) ensures r == if self <= o { self } else { o } { self.min(o) } }
pub trait IntoX { fn into_v(&self) -> String; }
impl IntoX for str { #[verifier::external_body] fn into_v(&self) -> (r: String) ensures r@ == self@ { self.into() } }
pub trait ToStringX { fn to_string_v(&self) -> String; }
impl ToStringX for str { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == self@ { self.to_string() } }
impl ToStringX for usize { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == fdec(*self as nat) { self.to_string() } }
pub trait OrElseX<T>: Sized { fn ok_or_else_v<E, F: FnOnce() -> E>(self, f: F) -> core::result::Result<T, E>; }
impl<T> OrElseX<T> for Option<T> {
    #[verifier::external_body] fn ok_or_else_v<E, F: FnOnce() -> E>(self, f: F) -> (r: core::result::Result<T, E>) ensures match self { Some(x) => r == Ok::<T, E>(x), None => r is Err } { self.ok_or_else(f) }
}
pub trait DefX { fn unwrap_or_default_v(self) -> u32; }
impl DefX for Option<u32> { #[verifier::external_body] fn unwrap_or_default_v(self) -> (r: u32) ensures r == match self { Some(x) => x, None => 0 } { self.unwrap_or_default() } }
pub trait ToYaml { fn to_yaml_v(&self) -> Yaml; }
impl ToYaml for str { #[verifier::external_body] fn to_yaml_v(&self) -> (r: Yaml) ensures ystr(r) == Some(self@) { unimplemented!() } }
pub trait HasX { fn contains_key_v(&self, k: &Yaml) -> bool; }
impl HasX for Hash { #[verifier::external_body] fn contains_key_v(&self, k: &Yaml) -> (r: bool) ensures ystr(*k) is Some ==> (r <==> yget(*self, ystr(*k).unwrap()) is Some) { self.contains_key(k) } }
// the neighbours in a list, one pair after another
#[verifier::external_body] pub struct Pairs { v: Vec<(u32, u32)> }
impl View for Pairs { type V = Seq<(u32, u32)>; uninterp spec fn view(&self) -> Seq<(u32, u32)>; }
impl Pairs { #[verifier::external_body] pub fn next_v(&mut self) -> (r: Option<(u32, u32)>) ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1) } { unimplemented!() } }
pub trait WinX { fn windows_v(&self, n: usize) -> Pairs; }
impl WinX for [u32] { #[verifier::external_body] fn windows_v(&self, n: usize) -> (r: Pairs) ensures n == 2 ==> r@ == Seq::new(if self@.len() == 0 { 0 } else { (self@.len() - 1) as nat }, |i: int| (self@[i], self@[i + 1])) { unimplemented!() } }
// ---- texts: positions count bytes of UTF-8 ----
pub open spec fn clen(c: char) -> nat { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
pub open spec fn is_cut(s: Seq<char>, lo: int, hi: int, r: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| s == #[trigger] ((a + r) + b) && blen(a) == lo && blen(s) - blen(b) == hi }
// TRUSTED (std): length and pieces of a text; a piece that does not lie between characters stops the program
pub trait LenX { fn len_v(&self) -> usize; }
impl LenX for str { #[verifier::external_body] fn len_v(&self) -> (r: usize) ensures r == blen(self@) { self.len() } }
impl<T> LenX for Vec<T> { #[verifier::external_body] fn len_v(&self) -> (r: usize) ensures r == self@.len() { self.len() } }
impl<T> LenX for [T] { #[verifier::external_body] fn len_v(&self) -> (r: usize) ensures r == self@.len() { self.len() } }
pub trait CutX {
    fn cut_v(&self, lo: usize, hi: usize) -> &str;
    fn cut_back_v(&self, lo: usize, back: usize) -> &str;
    fn cut_to_v(&self, hi: usize) -> &str;
    fn cut_from_v(&self, lo: usize) -> &str;
    fn ends_with_v(&self, p: &str) -> bool;
}
impl CutX for str {
    #[verifier::external_body] fn cut_v(&self, lo: usize, hi: usize) -> (r: &str) ensures lo <= hi, is_cut(self@, lo as int, hi as int, r@) { &self[lo..hi] }
    #[verifier::external_body] fn cut_back_v(&self, lo: usize, back: usize) -> (r: &str) ensures is_cut(self@, lo as int, blen(self@) - back, r@) { &self[lo..self.len() - back] }
    #[verifier::external_body] fn cut_to_v(&self, hi: usize) -> (r: &str) ensures is_cut(self@, 0, hi as int, r@) { &self[..hi] }
    #[verifier::external_body] fn cut_from_v(&self, lo: usize) -> (r: &str) ensures is_cut(self@, lo as int, blen(self@) as int, r@) { &self[lo..] }
    #[verifier::external_body] fn ends_with_v(&self, p: &str) -> (r: bool) ensures r <==> has_suffix(self@, p@) { self.ends_with(p) }
}
// ---- PROOF ----
pub proof fn lemma_blen(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_blen(a, b.drop_last()); } }
pub proof fn lemma_blen0(a: Seq<char>) ensures blen(a) == 0 <==> a.len() == 0, blen(a) >= a.len() decreases a.len() { if a.len() > 0 { lemma_blen0(a.drop_last()); } }
// two ways to cut a text at the same byte are the same
pub proof fn lemma_same_cut(a: Seq<char>, x: Seq<char>, p: Seq<char>, y: Seq<char>) requires a + x == p + y, blen(a) == blen(p) ensures a == p, x == y
{
    if a.len() < p.len() { let m = p.subrange(a.len() as int, p.len() as int); assert(forall|i: int| 0 <= i < a.len() ==> p[i] == (p + y)[i] && a[i] == (a + x)[i]); assert(p =~= a + m); lemma_blen(a, m); lemma_blen0(m); }
    if p.len() < a.len() { let m = a.subrange(p.len() as int, a.len() as int); assert(forall|i: int| 0 <= i < p.len() ==> p[i] == (p + y)[i] && a[i] == (a + x)[i]); assert(a =~= p + m); lemma_blen(p, m); lemma_blen0(m); }
    assert(a.len() == p.len());
    assert(forall|i: int| 0 <= i < a.len() ==> p[i] == (p + y)[i] && a[i] == (a + x)[i]); assert(a =~= p);
    assert((a + x).len() == a.len() + x.len()); assert((p + y).len() == p.len() + y.len()); assert(x.len() == y.len());
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert((a + x)[a.len() + i] == x[i]); assert((p + y)[p.len() + i] == y[i]); }
    assert(x =~= y);
}
pub proof fn lemma_front(q: Seq<char>, hi: int, r: Seq<char>) requires is_cut(q, 0, hi, r) ensures has_prefix(q, r), blen(r) == hi
{ let (a, b) = choose|a: Seq<char>, b: Seq<char>| q == #[trigger] ((a + r) + b) && blen(a) == 0 && blen(q) - blen(b) == hi; lemma_blen0(a); assert(a + r =~= r); lemma_blen(r, b); assert(q.subrange(0, r.len() as int) =~= r); }
pub proof fn lemma_back(q: Seq<char>, lo: int, r: Seq<char>) requires is_cut(q, lo, blen(q) as int, r) ensures has_suffix(q, r), blen(r) == blen(q) - lo
{ let (a, b) = choose|a: Seq<char>, b: Seq<char>| q == #[trigger] ((a + r) + b) && blen(a) == lo && blen(q) - blen(b) == blen(q); lemma_blen0(b); assert(a + r + b =~= a + r); lemma_blen(a, r); assert(q.subrange(q.len() - r.len(), q.len() as int) =~= r); }
// a name that starts with the text before the pattern and ends with the text after it is these around the piece between
pub proof fn lemma_fit(n: Seq<char>, p: Seq<char>, s: Seq<char>, v: Seq<char>)
    requires has_prefix(n, p), has_suffix(n, s), is_cut(n, blen(p) as int, blen(n) - blen(s), v) ensures n == p + v + s
{
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| n == #[trigger] ((a + v) + b) && blen(a) == blen(p) && blen(n) - blen(b) == blen(n) - blen(s);
    let x = n.skip(p.len() as int); assert(n =~= p + x); assert(a + (v + b) =~= n); lemma_same_cut(a, v + b, p, x);
    let y = n.take(n.len() - s.len()); assert(n =~= y + s); lemma_blen(a + v, b); lemma_blen(y, s); lemma_same_cut(a + v, b, y, s);
}
pub proof fn lemma_same_elems<T>(a: Seq<T>, b: Seq<T>) requires a.to_multiset() == b.to_multiset() ensures forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> b.contains(a[i])
{ a.to_multiset_ensures(); b.to_multiset_ensures(); assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies b.contains(a[i]) by { assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); } }
// ---- occupied bits ----
pub open spec fn bits_of(w: u32, o: u32) -> u64 { (!0u64 >> ((64 - w) as u32)) << o }
pub open spec fn mask_of(s: Seq<Field>, n: int) -> u64 decreases n { if n <= 0 { 0 } else { mask_of(s, n - 1) | bits_of(ma(s[n - 1]).bit_range.width, ma(s[n - 1]).bit_range.offset) } }
pub open spec fn mask(r: RegisterInfo) -> u64 { match r.fields { Some(v) => mask_of(v@, v@.len() as int), None => 0 } }
// ASSUMPTION: fields lie within 64 bits
pub open spec fn small(r: RegisterInfo) -> bool { match r.fields { Some(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> 0 < ma(v@[i]).bit_range.width <= 64 && ma(v@[i]).bit_range.offset < 64, None => true } }
//@fn src/patch/register.rs | RegisterInfoExt for RegisterInfo | get_bitmask
//@self RegisterInfo
//@name get_bitmask
//@spec
    requires small(*self_)
    ensures r == mask(*self_),
//@loop 1 it
    invariant it.seq().len() == fields@.len(), mask == mask_of(fields@, it.index() as int), derefs(it.seq()) =~= fields@, *fields == self_.fields.unwrap(), small(*self_), self_.fields is Some,
//@loop-start 1
    assert(derefs(it.seq())[it.index() as int] == fields@[it.index() as int]);
//@end
//@fn src/patch/mod.rs | check_offsets
//@sub Some(&[o1, o2]) =>> Some((o1, o2))
//@spec
    requires ascends(offsets@)
    ensures r <==> forall|i: int| 0 <= i < offsets@.len() - 1 ==> #[trigger] offsets@[i + 1] - offsets@[i] == dim_increment,
//@start
    let ghost mut n_ = 0int;
//@loop 1
    invariant 0 <= n_, n_ <= offsets@.len(), offsets@.len() > 0 ==> n_ < offsets@.len(), ascends(offsets@), it@ =~= Seq::new((if offsets@.len() == 0 { 0 } else { offsets@.len() - 1 - n_ }) as nat, |i: int| (offsets@[n_ + i], offsets@[n_ + i + 1])),
        forall|i: int| 0 <= i < n_ ==> #[trigger] offsets@[i + 1] - offsets@[i] == dim_increment,
    ensures it@.len() == 0
    decreases it@.len()
//@loop-end 1
    proof { n_ = n_ + 1; }
//@end

// a bit is occupied exactly if a field covers it
pub proof fn lemma_bits(w: u32, o: u32, b: u32) requires 0 < w <= 64, o < 64, b < 64 ensures (bits_of(w, o) >> b) & 1 == 1 <==> o <= b && b < o + w
{ let z = (64 - w) as u32; let m = bits_of(w, o); assert(m == (!0u64 >> z) << o);
  assert(((((!0u64 >> z) << o) >> b) & 1 == 1) <==> (o <= b && add(b, z) < add(o, 64))) by (bit_vector) requires z < 64, o < 64, b < 64; }
pub proof fn lemma_mask(s: Seq<Field>, n: int, b: u32)
    requires 0 <= n <= s.len(), b < 64, forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> 0 < ma(s[i]).bit_range.width <= 64 && ma(s[i]).bit_range.offset < 64
    ensures (mask_of(s, n) >> b) & 1 == 1 <==> exists|i: int| #![trigger s[i]] 0 <= i < n && ma(s[i]).bit_range.offset <= b && b < ma(s[i]).bit_range.offset + ma(s[i]).bit_range.width
    decreases n
{
    let k = mask_of(s, n);
    if n > 0 {
        lemma_mask(s, n - 1, b); let f = s[n - 1]; lemma_bits(ma(f).bit_range.width, ma(f).bit_range.offset, b);
        let x = mask_of(s, n - 1); let y = bits_of(ma(f).bit_range.width, ma(f).bit_range.offset);
        assert(((x | y) >> b) & 1 == 1 <==> ((x >> b) & 1 == 1 || (y >> b) & 1 == 1)) by (bit_vector) requires b < 64;
    } else { assert((0u64 >> b) & 1 == 0) by (bit_vector); }
}
pub trait OptMapX<T>: Sized { fn map_v<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>; }
impl<T> OptMapX<T> for Option<T> { #[verifier::external_body] fn map_v<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { self.map(f) } }
// how many bytes stand before and after the pattern in a selector (regex, not specified further)
pub uninterp spec fn ind(s: Seq<char>) -> Option<(int, int)>;
#[verifier::external_body] pub fn spec_ind(spec: &str) -> (r: Option<(usize, usize)>) ensures match r { Some(p) => ind(spec@) == Some((p.0 as int, p.1 as int)) && p.0 + p.1 <= blen(spec@), None => ind(spec@) is None } { unimplemented!() }
#[verifier::external_body] pub fn common_description(descs: &[Option<&str>], dim_index: &[String]) -> Option<Option<String>> { unimplemented!() }
}
