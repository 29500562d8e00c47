// Finding one register (or cluster) of a block by a condition; adding a child.
//@wrap find
//@methods Peripheral: insert_child add_child present_registers get_reg
//@methods Cluster: insert_child add_child present_registers get_reg
verus! {
// TRUSTED (std): the first element of which the condition holds; references given back unused leave what they refer to
pub open spec fn first_ref<'a, T, F: FnMut(&&'a T) -> bool>(v: Seq<&'a T>, f: F, k: int) -> bool {
    0 <= k < v.len() && f.ensures((&v[k],), true) && forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] v[i],), false)
}
#[verifier::prophetic]
pub open spec fn first_mut<'a, T, F: FnMut(&&'a mut T) -> bool>(v: Seq<&'a mut T>, f: F, k: int) -> bool {
    0 <= k < v.len() && f.ensures((&v[k],), true) && forall|i: int| #![trigger v[i]] (0 <= i < k ==> f.ensures((&v[i],), false)) && (0 <= i < v.len() && i != k ==> *final(v[i]) == *v[i])
}
pub open spec fn none_ref<'a, T, F: FnMut(&&'a T) -> bool>(v: Seq<&'a T>, f: F) -> bool { forall|i: int| 0 <= i < v.len() ==> f.ensures((&#[trigger] v[i],), false) }
#[verifier::prophetic]
pub open spec fn none_mut<'a, T, F: FnMut(&&'a mut T) -> bool>(v: Seq<&'a mut T>, f: F) -> bool { forall|i: int| 0 <= i < v.len() ==> f.ensures((&#[trigger] v[i],), false) && *final(v[i]) == *v[i] }
pub trait FindX<T> { fn find_v<F: FnMut(&T) -> bool>(self, f: F) -> Option<T> where Self: Sized; }
impl<'a, T> FindX<&'a mut T> for Vec<&'a mut T> {
    #[verifier::external_body]
    fn find_v<F: FnMut(&&'a mut T) -> bool>(self, f: F) -> (r: Option<&'a mut T>)
        ensures match r {
            None => none_mut(self@, f),
            Some(x) => exists|k: int| #[trigger] first_mut(self@, f, k) && self@[k] == x }
    { unimplemented!() }
}
impl<'a, T> FindX<&'a T> for Vec<&'a T> {
    #[verifier::external_body]
    fn find_v<F: FnMut(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>)
        ensures match r {
            None => none_ref(self@, f),
            Some(x) => exists|k: int| #[trigger] first_ref(self@, f, k) && self@[k] == x }
    { unimplemented!() }
}
#[verifier::prophetic]
pub open spec fn mref_named<T: HasName>(x: &mut T, n: Seq<char>) -> bool { (*x).nm() == n }
//@each K: Register Cluster
// the place among the children of the first that is referred to and fulfils the condition
pub broadcast proof fn lemma_first_ref_$K<'a, F: FnMut(&&'a $K) -> bool>(s: Seq<RegisterCluster>, v: Seq<&'a $K>, f: F, k: int)
    requires #[trigger] ref_$K(s, v), #[trigger] first_ref(v, f, k)
    ensures exists|i: int| 0 <= i < s.len() && as_$K(#[trigger] s[i]) == Some(*v[k]) && forall|l: int| 0 <= l < i && as_$K(#[trigger] s[l]) is Some ==> exists|x: &'a $K| *x == as_$K(s[l]).unwrap() && #[trigger] f.ensures((&x,), false)
{
    lemma_nth(s, sel_$K(all_p()), s.len() as int, k); let i = nth_sel(s, sel_$K(all_p()), k); assert(as_$K(s[i]) is Some);
    assert forall|l: int| 0 <= l < i && as_$K(#[trigger] s[l]) is Some implies exists|x: &'a $K| *x == as_$K(s[l]).unwrap() && #[trigger] f.ensures((&x,), false) by {
        assert(sel_$K(all_p())(s[l])); lemma_cnt(s, sel_$K(all_p()), i); let c = cnt(s, sel_$K(all_p()), l); assert(*v[c] == as_$K(s[l]).unwrap()); assert(f.ensures((&v[c],), false));
    }
}
pub broadcast proof fn lemma_first_mut_$K<'a, F: FnMut(&&'a mut $K) -> bool>(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, v: Seq<&'a mut $K>, f: F, k: int)
    requires #[trigger] refs_$K(s, t, v, all_p()), #[trigger] first_mut(v, f, k)
    ensures exists|i: int| 0 <= i < s.len() && as_$K(#[trigger] s[i]) == Some(*v[k]) && t == s.update(i, RegisterCluster::$K(*final(v[k]))) && forall|l: int| 0 <= l < i && as_$K(#[trigger] s[l]) is Some ==> exists|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == as_$K(s[l]).unwrap() && f.ensures((&v[j],), false)
{
    lemma_nth(s, sel_$K(all_p()), s.len() as int, k); let i = nth_sel(s, sel_$K(all_p()), k); assert(as_$K(s[i]) is Some);
    assert forall|l: int| 0 <= l < i && as_$K(#[trigger] s[l]) is Some implies exists|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == as_$K(s[l]).unwrap() && f.ensures((&v[j],), false) by {
        assert(sel_$K(all_p())(s[l])); lemma_cnt(s, sel_$K(all_p()), i); assert(t[l] == t[l]); let c = cnt(s, sel_$K(all_p()), l); assert(*v[c] == as_$K(s[l]).unwrap()); assert(f.ensures((&v[c],), false));
    }
    assert(t[i] == t[i]);
    assert forall|l: int| 0 <= l < s.len() && l != i implies t[l] == #[trigger] s[l] by {
        if as_$K(s[l]) is Some { assert(sel_$K(all_p())(s[l])); let c = cnt(s, sel_$K(all_p()), l);
            if l < i { lemma_cnt(s, sel_$K(all_p()), i); } else { lemma_cnt(s, sel_$K(all_p()), l); assert(sel_$K(all_p())(s[i])); }
            assert(c != k); assert(*final(v[c]) == *v[c]); }
    }
    assert(t =~= s.update(i, RegisterCluster::$K(*final(v[k]))));
}
// nothing found
pub broadcast proof fn lemma_none_ref_$K<'a, F: FnMut(&&'a $K) -> bool>(s: Seq<RegisterCluster>, v: Seq<&'a $K>, f: F)
    requires #[trigger] ref_$K(s, v), #[trigger] none_ref(v, f)
    ensures forall|l: int| 0 <= l < s.len() && as_$K(#[trigger] s[l]) is Some ==> exists|x: &'a $K| *x == as_$K(s[l]).unwrap() && #[trigger] f.ensures((&x,), false)
{
    assert forall|l: int| 0 <= l < s.len() && as_$K(#[trigger] s[l]) is Some implies exists|x: &'a $K| *x == as_$K(s[l]).unwrap() && #[trigger] f.ensures((&x,), false) by {
        let c = cnt(s, sel_$K(all_p()), l); assert(*v[c] == as_$K(s[l]).unwrap()); assert(f.ensures((&v[c],), false));
    }
}
pub broadcast proof fn lemma_none_mut_$K<'a, F: FnMut(&&'a mut $K) -> bool>(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, v: Seq<&'a mut $K>, f: F)
    requires #[trigger] refs_$K(s, t, v, all_p()), #[trigger] none_mut(v, f)
    ensures t == s, forall|l: int| 0 <= l < s.len() && as_$K(#[trigger] s[l]) is Some ==> exists|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == as_$K(s[l]).unwrap() && f.ensures((&v[j],), false)
{
    assert forall|i: int| 0 <= i < s.len() implies t[i] == #[trigger] s[i] by { assert(t[i] == t[i]); } assert(t =~= s);
    assert forall|l: int| 0 <= l < s.len() && as_$K(#[trigger] s[l]) is Some implies exists|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == as_$K(s[l]).unwrap() && f.ensures((&v[j],), false) by {
        let c = cnt(s, sel_$K(all_p()), l); assert(t[l] == t[l]); assert(*v[c] == as_$K(s[l]).unwrap()); assert(f.ensures((&v[c],), false));
    }
}
//@endeach
// keeping the references whose register fulfils a condition
#[verifier::prophetic]
pub open spec fn mref_p<T>(x: &mut T, p: spec_fn(T) -> bool) -> bool { p(*x) }
#[verifier::prophetic]
pub open spec fn filt_rel<T>(v: Seq<&mut T>, r: Seq<&mut T>, p: spec_fn(T) -> bool) -> bool {
    &&& r.len() == cnt(curs(v), p, v.len() as int)
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> if p(*v[i]) { let c = cnt(curs(v), p, i); 0 <= c < r.len() && r[c] == v[i] } else { *final(v[i]) == *v[i] }
}
pub trait FilterX<'a, T>: Sized { fn filter_g<F: FnMut(&&'a mut T) -> bool>(self, p: Ghost<spec_fn(T) -> bool>, f: F) -> Vec<&'a mut T>; }
impl<'a, T> FilterX<'a, T> for Vec<&'a mut T> {
    #[verifier::external_body]
    fn filter_g<F: FnMut(&&'a mut T) -> bool>(self, p: Ghost<spec_fn(T) -> bool>, f: F) -> (r: Vec<&'a mut T>)
        ensures (forall|i: int, b: bool| 0 <= i < self@.len() && f.ensures((&#[trigger] self@[i],), b) ==> b == mref_p(self@[i], p@)) ==> filt_rel(self@, r@, p@)
    { unimplemented!() }
}
//@each K: Register Cluster
pub broadcast proof fn lemma_filt_$K(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, v: Seq<&mut $K>, r: Seq<&mut $K>, p: spec_fn($K) -> bool)
    requires #[trigger] refs_$K(s, t, v, all_p()), #[trigger] filt_rel(v, r, p)
    ensures refs_$K(s, t, r, p)
{
    let u = curs(v);
    assert forall|i: int| 0 <= i < s.len() && as_$K(#[trigger] s[i]) is Some implies { let c = cnt(s, sel_$K(all_p()), i); 0 <= c < u.len() && u[c] == as_$K(s[i]).unwrap() } by { assert(t[i] == t[i]); }
    assert forall|n: int| 0 <= n <= s.len() implies #[trigger] cnt(s, sel_$K(p), n) == cnt(u, p, cnt(s, sel_$K(all_p()), n)) by { lemma_comp_$K(s, u, p, n); }
    assert forall|i: int| #![trigger t[i]] #![trigger s[i]] 0 <= i < s.len() implies (match as_$K(s[i]) {
            Some(x) => if p(x) {
                    let c = cnt(s, sel_$K(p), i);
                    0 <= c < r.len() && *r[c] == x && t[i] == RegisterCluster::$K(*final(r[c]))
                } else { t[i] == s[i] },
            None => t[i] == s[i] }) by {
        if as_$K(s[i]) is Some { let c0 = cnt(s, sel_$K(all_p()), i); assert(*v[c0] == as_$K(s[i]).unwrap()); }
    }
}
//@endeach
//@each T: Peripheral Cluster
#[verifier::external_body] pub fn $T__present_registers(p: &$T) -> String { unimplemented!() }
//@fn src/patch/peripheral.rs | RegisterBlockExt for $T | add_child
//@self $T
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) == Some(kidz($T_kids(*old(self_))).push(child)),
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | insert_child
//@self $T
//@spec
    requires 0 <= pos <= kidz($T_kids(*old(self_))).len()
    ensures $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) == Some(kidz($T_kids(*old(self_))).insert(pos as int, child)),
//@end
//@endeach
}
