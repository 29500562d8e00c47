// Mutable iteration over selected elements.  An iterator of `&mut T` is represented by the
// vector of the references it yields; `s` is the container before, `t` the container after the
// references have been given back.
verus! {
pub trait HasName { spec fn nm(&self) -> Seq<char>; }
impl HasName for Field { open spec fn nm(&self) -> Seq<char> { ma(*self).name@ } }
impl HasName for Register { open spec fn nm(&self) -> Seq<char> { ma(*self).name@ } }
impl HasName for Cluster { open spec fn nm(&self) -> Seq<char> { ma(*self).name@ } }
impl HasName for Peripheral { open spec fn nm(&self) -> Seq<char> { ma(*self).name@ } }
impl HasName for Interrupt { open spec fn nm(&self) -> Seq<char> { self.name@ } }

// how many of the first n elements are selected
pub open spec fn cnt<T>(s: Seq<T>, p: spec_fn(T) -> bool, n: int) -> int decreases n {
    if n <= 0 { 0 } else { cnt(s, p, n - 1) + if p(s[n - 1]) { 1int } else { 0int } }
}
// v are the references to the selected elements of s, in order; the others stay
#[verifier::prophetic]
pub open spec fn refs<T>(s: Seq<T>, t: Seq<T>, v: Seq<&mut T>, p: spec_fn(T) -> bool) -> bool {
    &&& t.len() == s.len()
    &&& v.len() == cnt(s, p, s.len() as int)
    &&& forall|i: int| #![trigger t[i]] #![trigger s[i]] 0 <= i < s.len() ==> if p(s[i]) {
            let c = cnt(s, p, i);
            0 <= c < v.len() && *v[c] == s[i] && *final(v[c]) == t[i]
        } else { t[i] == s[i] }
}
// the elements of s that p selects are related by rel to those of t, the others are the same
pub open spec fn upd_sel<T>(s: Seq<T>, t: Seq<T>, p: spec_fn(T) -> bool, rel: spec_fn(T, T) -> bool) -> bool {
    &&& t.len() == s.len()
    &&& forall|i: int| #![trigger t[i]] 0 <= i < s.len() ==> if p(s[i]) { rel(s[i], t[i]) } else { t[i] == s[i] }
}
pub open spec fn any_sel<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) }
pub open spec fn all_p<T>() -> spec_fn(T) -> bool { |x: T| true }
pub open spec fn named<T: HasName>(spec: Seq<char>) -> spec_fn(T) -> bool { |x: T| matches(x.nm(), spec) }

pub proof fn lemma_cnt<T>(s: Seq<T>, p: spec_fn(T) -> bool, n: int)
    requires 0 <= n <= s.len()
    ensures 0 <= cnt(s, p, n) <= n,
        cnt(s, p, n) == 0 <==> (forall|i: int| 0 <= i < n ==> !p(#[trigger] s[i])),
        forall|i: int| 0 <= i < n && p(#[trigger] s[i]) ==> 0 <= cnt(s, p, i) < cnt(s, p, n),
    decreases n
{
    if n > 0 { lemma_cnt(s, p, n - 1); if p(s[n - 1]) {} }
}
// the position of the j-th selected element
pub open spec fn nth_sel<T>(s: Seq<T>, p: spec_fn(T) -> bool, j: int) -> int { choose|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) && cnt(s, p, i) == j }
pub proof fn lemma_nth<T>(s: Seq<T>, p: spec_fn(T) -> bool, n: int, j: int)
    requires 0 <= n <= s.len(), 0 <= j < cnt(s, p, n)
    ensures exists|i: int| 0 <= i < n && p(#[trigger] s[i]) && cnt(s, p, i) == j,
        0 <= nth_sel(s, p, j) < s.len(), p(s[nth_sel(s, p, j)]), cnt(s, p, nth_sel(s, p, j)) == j,
    decreases n
{
    if p(s[n - 1]) && cnt(s, p, n - 1) == j { } else { lemma_nth(s, p, n - 1, j); let i = choose|i: int| 0 <= i < n - 1 && p(#[trigger] s[i]) && cnt(s, p, i) == j; assert(p(s[i])); }
}
pub proof fn lemma_cnt_all1<T>(s: Seq<T>, n: int)
    requires 0 <= n <= s.len()
    ensures cnt(s, all_p::<T>(), n) == n
    decreases n
{ if n > 0 { lemma_cnt_all1(s, n - 1); assert(all_p::<T>()(s[n - 1])); } }
pub proof fn lemma_cnt_all<T>(s: Seq<T>)
    ensures forall|i: int| 0 <= i <= s.len() ==> #[trigger] cnt(s, all_p::<T>(), i) == i
{ assert forall|i: int| 0 <= i <= s.len() implies #[trigger] cnt(s, all_p::<T>(), i) == i by { lemma_cnt_all1(s, i); } }
// no reference if nothing is selected
pub broadcast proof fn lemma_none<T>(s: Seq<T>, t: Seq<T>, v: Seq<&mut T>, p: spec_fn(T) -> bool)
    requires #[trigger] refs(s, t, v, p)
    ensures v.len() == 0 <==> !any_sel(s, p), v.len() == 0 ==> t =~= s,
{ lemma_cnt(s, p, s.len() as int); if v.len() == 0 { assert forall|i: int| 0 <= i < s.len() implies t[i] == s[i] by { assert(!p(s[i])); } } }

pub open spec fn curs<T>(v: Seq<&mut T>) -> Seq<T> { Seq::new(v.len(), |i: int| *v[i]) }
#[verifier::prophetic]
pub open spec fn matched_rel<T: HasName>(v: Seq<&mut T>, r: Seq<&mut T>, spec: Seq<char>) -> bool {
    &&& r.len() == cnt(curs(v), named(spec), v.len() as int)
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> if matches((*v[i]).nm(), spec) {
            let c = cnt(curs(v), named(spec), i); 0 <= c < r.len() && r[c] == v[i]
        } else { *final(v[i]) == *v[i] }
}
// selecting among references to all elements = references to the selected elements
pub proof fn lemma_refs_matched<T: HasName>(s: Seq<T>, t: Seq<T>, v: Seq<&mut T>, r: Seq<&mut T>, spec: Seq<char>)
    requires refs(s, t, v, all_p()), matched_rel(v, r, spec)
    ensures refs(s, t, r, named(spec))
{
    lemma_cnt_all(s);
    assert forall|i: int| 0 <= i < s.len() implies *v[i] == #[trigger] s[i] by { assert(t[i] == t[i]); }
    assert(curs(v) =~= s);
    assert forall|i: int| #![trigger t[i]] #![trigger s[i]] 0 <= i < s.len() implies (if named::<T>(spec)(s[i]) {
            let c = cnt(s, named(spec), i);
            0 <= c < r.len() && *r[c] == s[i] && *final(r[c]) == t[i]
        } else { t[i] == s[i] }) by { assert(*v[i] == s[i]); assert(*final(v[i]) == t[i]); }
}
pub proof fn lemma_refs_matched_all<T: HasName>(s: Seq<T>, v: Seq<&mut T>, r: Seq<&mut T>, spec: Seq<char>)
    requires matched_rel(v, r, spec)
    ensures forall|t: Seq<T>| #![trigger refs(s, t, r, named(spec))] #![trigger refs(s, t, v, all_p())] refs(s, t, v, all_p()) ==> refs(s, t, r, named(spec))
{ assert forall|t: Seq<T>| #[trigger] refs(s, t, v, all_p()) implies refs(s, t, r, named(spec)) by { lemma_refs_matched(s, t, v, r, spec); } }
// TRUSTED wrappers: MatchIter (its `next` is contracted in u_iter) seen as the vector it yields
pub trait MatchedX<'a, T: HasName> { fn matched(self, spec: &str) -> Vec<&'a mut T>; }
impl<'a, T: HasName> MatchedX<'a, T> for Vec<&'a mut T> {
    #[verifier::external_body]
    fn matched(self, spec: &str) -> (r: Vec<&'a mut T>)
        ensures
            matched_rel(self@, r@, spec@),
    { unimplemented!() }
}
}

// ---- iteration over the fields of a register ----
//@methods Register: fields_mut iter_fields
verus! {
pub open spec fn reg_fields(r: Register) -> Seq<Field> { match ma(r).fields { Some(v) => v@, None => Seq::empty() } }
pub open spec fn reg_fields_frame(a: Register, b: Register) -> bool {
    reg_only_fields(ma(a), ma(b)) && ma_shape(a, b) && (ma(a).fields is Some == ma(b).fields is Some)
}
// TRUSTED (svd-rs): fields_mut yields every field once, in order
#[verifier::external_body]
pub fn Register__fields_mut<'a>(self_: &'a mut Register) -> (r: Vec<&'a mut Field>)
    ensures refs(reg_fields(*old(self_)), reg_fields(*final(self_)), r@, all_p()), reg_fields_frame(*final(self_), *old(self_)),
{ self_.fields_mut().collect() }

//@fn src/patch/register.rs | RegisterExt for Register | iter_fields
//@self Register
//@sig pub fn Register__iter_fields<'a>(self_: &'a mut Register, spec: &str) -> (r: Vec<&'a mut Field>)
//@sub self.fields_mut().matched(spec) =>> { let v_ = Register__fields_mut(self_); let ghost gv_ = v_@; let r_ = v_.matched(spec); proof { lemma_refs_matched_all(s0_, gv_, r_@, spec@); } r_ }
//@spec
    ensures refs(reg_fields(*old(self_)), reg_fields(*final(self_)), r@, named(spec@)), reg_fields_frame(*final(self_), *old(self_)),
//@start
    let ghost s0_ = reg_fields(*self_);
//@end
}
