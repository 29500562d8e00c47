// Looking an element up by its exact name, and the place of a new element.
//@wrap any get_or_insert_with
//@methods Peripheral: regs clstrs get_interrupt
//@methods Cluster: regs clstrs
//@methods Register: get_field
//@methods Device: get_peripheral get_mut_peripheral
verus! {
pub open spec fn has_name<T: HasName>(s: Seq<T>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == n }
// the first element of that name
pub open spec fn at_name<T: HasName>(s: Seq<T>, n: Seq<char>, k: int) -> bool { 0 <= k < s.len() && s[k].nm() == n && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).nm() != n }
pub open spec fn found<T: HasName>(s: Seq<T>, n: Seq<char>, r: Option<&T>) -> bool {
    match r { None => !has_name(s, n), Some(x) => exists|k: int| #[trigger] at_name(s, n, k) && *x == s[k] }
}
// TRUSTED (svd-rs): the first element with that name
#[verifier::external_body]
pub fn Device__get_peripheral<'a>(self_: &'a Device, name: &str) -> (r: Option<&'a Peripheral>) ensures found(self_.peripherals@, name@, r) { self_.get_peripheral(name) }
#[verifier::external_body]
pub fn Device__get_mut_peripheral<'a>(self_: &'a mut Device, name: &str) -> (r: Option<&'a mut Peripheral>)
    ensures match r { None => !has_name(old(self_).peripherals@, name@) && *final(self_) == *old(self_),
        Some(x) => dev_only_peripherals(*final(self_), *old(self_)) && exists|k: int| #[trigger] at_name(old(self_).peripherals@, name@, k) && *x == old(self_).peripherals@[k] && final(self_).peripherals@ == old(self_).peripherals@.update(k, *final(x)) }
{ self_.get_mut_peripheral(name) }
#[verifier::external_body]
pub fn Peripheral__get_interrupt<'a>(self_: &'a Peripheral, name: &str) -> (r: Option<&'a Interrupt>) ensures found(ma(*self_).interrupt@, name@, r) { self_.get_interrupt(name) }
#[verifier::external_body]
pub fn Register__get_field<'a>(self_: &'a Register, name: &str) -> (r: Option<&'a Field>) ensures found(reg_fields(*self_), name@, r) { self_.get_field(name) }

//@each K: Register Cluster
// v are the $Ks among the children, in order
pub open spec fn ref_$K(s: Seq<RegisterCluster>, v: Seq<&$K>) -> bool {
    v.len() == cnt(s, sel_$K(all_p()), s.len() as int) && forall|i: int| 0 <= i < s.len() && as_$K(#[trigger] s[i]) is Some ==> { let c = cnt(s, sel_$K(all_p()), i); 0 <= c < v.len() && *v[c] == as_$K(s[i]).unwrap() }
}
pub open spec fn has_$K(s: Seq<RegisterCluster>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && as_$K(#[trigger] s[i]) is Some && as_$K(s[i]).unwrap().nm() == n }
// the first $K of that name
pub open spec fn at_$K(s: Seq<RegisterCluster>, n: Seq<char>, k: int) -> bool { 0 <= k < s.len() && as_$K(s[k]) is Some && as_$K(s[k]).unwrap().nm() == n && forall|i: int| 0 <= i < k && as_$K(#[trigger] s[i]) is Some ==> as_$K(s[i]).unwrap().nm() != n }
pub broadcast proof fn lemma_ref_$K(s: Seq<RegisterCluster>, v: Seq<&$K>)
    requires #[trigger] ref_$K(s, v)
    ensures forall|j: int| 0 <= j < v.len() ==> exists|i: int| 0 <= i < s.len() && as_$K(#[trigger] s[i]) == Some(*(#[trigger] v[j])) && cnt(s, sel_$K(all_p()), i) == j,
        forall|i: int, l: int| 0 <= i < l < s.len() && as_$K(#[trigger] s[i]) is Some ==> 0 <= cnt(s, sel_$K(all_p()), i) < #[trigger] cnt(s, sel_$K(all_p()), l)
{
    assert forall|i: int, l: int| 0 <= i < l < s.len() && as_$K(#[trigger] s[i]) is Some implies 0 <= cnt(s, sel_$K(all_p()), i) < #[trigger] cnt(s, sel_$K(all_p()), l) by { lemma_cnt(s, sel_$K(all_p()), l); assert(sel_$K(all_p())(s[i])); }
    assert forall|j: int| 0 <= j < v.len() implies exists|i: int| 0 <= i < s.len() && as_$K(#[trigger] s[i]) == Some(*(#[trigger] v[j])) && cnt(s, sel_$K(all_p()), i) == j by {
        lemma_nth(s, sel_$K(all_p()), s.len() as int, j); let i = nth_sel(s, sel_$K(all_p()), j); assert(as_$K(s[i]) is Some);
    }
}
//@endeach
//@each T: Peripheral Cluster
// TRUSTED (svd-rs): `registers()` / `clusters()` yield the direct children of that kind, in order
#[verifier::external_body]
pub fn $T__regs<'a>(self_: &'a $T) -> (r: Vec<&'a Register>) ensures ref_Register(kidz($T_kids(*self_)), r@) { self_.registers().collect() }
#[verifier::external_body]
pub fn $T__clstrs<'a>(self_: &'a $T) -> (r: Vec<&'a Cluster>) ensures ref_Cluster(kidz($T_kids(*self_)), r@) { self_.clusters().collect() }
//@endeach
// TRUSTED wrappers (std): a closure that decides one condition decides it for all elements
pub trait AnyX<T> { fn any_v<F: FnMut(T) -> bool>(self, f: F) -> bool where Self: Sized; }
impl<T> AnyX<T> for Vec<T> {
    #[verifier::external_body]
    fn any_v<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        ensures if r { exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true) } else { forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false) }
    { self.into_iter().any(f) }
}
pub trait GetOrX<T> { fn get_or_insert_with_v<'a, F: FnOnce() -> T>(&'a mut self, f: F) -> &'a mut T; }
impl<T> GetOrX<T> for Option<T> {
    #[verifier::external_body]
    fn get_or_insert_with_v<'a, F: FnOnce() -> T>(&'a mut self, f: F) -> (r: &'a mut T)
        ensures match *old(self) { Some(x) => *r == x, None => f.ensures((), *r) }, *final(self) == Some(*final(r))
    { self.get_or_insert_with(f) }
}
// ---- the place of a new element ----
pub open spec fn adding(k: Seq<int>, a: int, r: int) -> bool {
    0 <= r <= k.len() && (forall|i: int| 0 <= i < k.len() && #[trigger] k[i] <= a ==> r > 0 && k[i] <= k[r - 1] && (i >= r ==> k[i] < k[r - 1])) && (r > 0 ==> k[r - 1] <= a)
}
pub open spec fn keys<T>(s: Seq<T>, k: spec_fn(T) -> int) -> Seq<int> { Seq::new(s.len(), |i: int| k(s[i])) }
}
