//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_block.rs p_spec.rs p_iter.rs
//@use p_fields.rs
//@methods Register: present_fields iter_fields
verus! {
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExRPath(svd_parser::expand::RegisterPath);
pub type RegisterPath = svd_parser::expand::RegisterPath;
// TRUSTED (crate `commands`): the longest common prefix of the names
pub open spec fn common_prefix(ns: Seq<String>, p: Seq<char>) -> bool { forall|i: int| 0 <= i < ns.len() ==> has_prefix((#[trigger] ns[i])@, p) }
#[verifier::external_body]
pub fn lcp_v(ns: &Vec<String>) -> (r: String)
    ensures ns@.len() > 0 ==> common_prefix(ns@, r@), forall|p: Seq<char>| #[trigger] common_prefix(ns@, p) && ns@.len() > 0 ==> p.len() <= r@.len()
{ unimplemented!() }

pub open spec fn y_is(y: Yaml, n: Seq<char>) -> bool { match y { Yaml::String(s) => matches(n, s@), _ => false } }
// whether a merge entry selects the name
pub open spec fn m_sel(key: Seq<char>, value: Option<Yaml>, n: Seq<char>) -> bool {
    match value { None => matches(n, key), Some(Yaml::String(v)) => matches(n, v@), Some(Yaml::Array(vs)) => exists|j: int| 0 <= j < vs@.len() && y_is(#[trigger] vs@[j], n), _ => false }
}
pub open spec fn m_p(key: Seq<char>, value: Option<Yaml>) -> spec_fn(Field) -> bool { |f: Field| m_sel(key, value, f.nm()) }
// among the first n fields: the sum of the widths and the lowest offset of the selected ones
pub open spec fn wsum(s: Seq<Field>, p: spec_fn(Field) -> bool, n: int) -> int decreases n {
    if n <= 0 { 0 } else { wsum(s, p, n - 1) + if p(s[n - 1]) { ma(s[n - 1]).bit_range.width as int } else { 0int } }
}
pub open spec fn omin(s: Seq<Field>, p: spec_fn(Field) -> bool, n: int) -> int decreases n {
    if n <= 0 { u32::MAX as int } else { let m = omin(s, p, n - 1); if p(s[n - 1]) && ma(s[n - 1]).bit_range.offset < m { ma(s[n - 1]).bit_range.offset as int } else { m } }
}
pub open spec fn first_sel<T>(s: Seq<T>, p: spec_fn(T) -> bool, k: int) -> bool { 0 <= k < s.len() && p(s[k]) && forall|i: int| 0 <= i < k ==> !p(#[trigger] s[i]) }
pub proof fn lemma_wsum(s: Seq<Field>, p: spec_fn(Field) -> bool, a: int, b: int)
    requires 0 <= a <= b ensures 0 <= wsum(s, p, a) <= wsum(s, p, b) decreases b
{ if a < b { lemma_wsum(s, p, a, b - 1); } else if a > 0 { lemma_wsum(s, p, a - 1, a - 1); } }
pub proof fn lemma_filter_first<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, k: int)
    requires first_sel(s, p, k), forall|i: int| 0 <= i < s.len() ==> q(#[trigger] s[i]) == !p(s[i])
    ensures s.filter(q) =~= s.subrange(0, k) + s.skip(k).filter(|x: T| !p(x)), s.filter(q).len() >= k
{
    let a = s.subrange(0, k); let b = s.skip(k);
    assert(s =~= a + b);
    Seq::<T>::filter_distributes_over_add(a, b, q);
    lemma_filter_all(a, q);
    lemma_filter_same(b, q, |x: T| !p(x));
}
pub proof fn lemma_filter_all<T>(a: Seq<T>, q: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < a.len() ==> q(#[trigger] a[i]) ensures a.filter(q) =~= a decreases a.len()
{ reveal(Seq::filter); if a.len() > 0 { lemma_filter_all(a.drop_last(), q); assert(q(a[a.len() - 1])); assert(a =~= a.drop_last().push(a.last())); } }
pub proof fn lemma_filter_same<T>(a: Seq<T>, q: spec_fn(T) -> bool, r: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < a.len() ==> q(#[trigger] a[i]) == r(a[i]) ensures a.filter(q) =~= a.filter(r) decreases a.len()
{ reveal(Seq::filter); if a.len() > 0 { lemma_filter_same(a.drop_last(), q, r); assert(q(a[a.len() - 1]) == r(a[a.len() - 1])); } }
// the field put in the place of the merged ones
pub open spec fn merged(f: Field, s: Seq<Field>, p: spec_fn(Field) -> bool, k: int) -> bool {
    let i = ma(f);
    f is Single && i.description == etn(ma(s[k]).description) && i.bit_range.offset == omin(s, p, s.len() as int) && i.bit_range.width == wsum(s, p, s.len() as int)
    && i.access is None && i.modified_write_values is None && i.write_constraint is None && i.read_action is None && i.derived_from is None && i.enumerated_values@.len() == 0
}
#[verifier::inline] pub open spec fn sv(v: Vec<String>) -> Seq<String> { v@ }
pub open spec fn yv(value: Option<&Yaml>) -> Option<Yaml> { match value { Some(y) => Some(*y), None => None } }
pub open spec fn merge_done(s: Seq<Field>, t: Seq<Field>, key: Seq<char>, v: Option<Yaml>) -> bool {
    let p = m_p(key, v);
    exists|k: int, f: Field| #[trigger] first_sel(s, p, k) && #[trigger] merged(f, s, p, k)
        && t == s.subrange(0, k).push(f) + s.skip(k).filter(|x: Field| !p(x)) && (v is Some ==> ma(f).name@ == key)
        && (v is None ==> (forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> has_prefix(s[i].nm(), ma(f).name@))
            && forall|q: Seq<char>| (forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> has_prefix(s[i].nm(), q)) ==> #[trigger] q.len() <= ma(f).name@.len())
}
// the names collected from the first k selectors of a list
pub open spec fn names_upto(s: Seq<Field>, vs: Seq<Yaml>, k: int, names: Seq<String>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (hit(names, s[i].nm()) <==> exists|j: int| 0 <= j < k && y_is(#[trigger] vs[j], s[i].nm()))
    &&& forall|n: Seq<char>| #[trigger] hit(names, n) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == n
}
pub proof fn lemma_hit_add(a: Seq<String>, b: Seq<String>)
    ensures forall|n: Seq<char>| #[trigger] hit(a + b, n) <==> hit(a, n) || hit(b, n)
{
    assert forall|n: Seq<char>| hit(a, n) || hit(b, n) implies #[trigger] hit(a + b, n) by {
        if hit(a, n) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == n; assert((a + b)[i] == a[i]); }
        else { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == n; assert((a + b)[a.len() + i] == b[i]); }
    }
    assert forall|n: Seq<char>| #[trigger] hit(a + b, n) implies hit(a, n) || hit(b, n) by {
        let i = choose|i: int| 0 <= i < (a + b).len() && (#[trigger] (a + b)[i])@ == n; if i < a.len() { assert(a[i]@ == n); } else { assert(b[i - a.len()]@ == n); }
    }
}
pub proof fn lemma_upto(s: Seq<Field>, vs: Seq<Yaml>, k: int, a: Seq<String>, c: Seq<String>)
    requires names_upto(s, vs, k, a), 0 <= k < vs.len(), ystr(vs[k]) is Some, exists|b: Seq<String>| c == a + b && #[trigger] names_of(s, ystr(vs[k]).unwrap(), b)
    ensures names_upto(s, vs, k + 1, c)
{
    let b = choose|b: Seq<String>| c == a + b && #[trigger] names_of(s, ystr(vs[k]).unwrap(), b);
    lemma_hit_add(a, b);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies (hit(c, s[i].nm()) <==> exists|j: int| 0 <= j < k + 1 && y_is(#[trigger] vs[j], s[i].nm())) by {
        assert(hit(b, s[i].nm()) <==> y_is(vs[k], s[i].nm()));
        assert(hit(a, s[i].nm()) <==> exists|j: int| 0 <= j < k && y_is(#[trigger] vs[j], s[i].nm()));
        if hit(a, s[i].nm()) { let j = choose|j: int| 0 <= j < k && y_is(#[trigger] vs[j], s[i].nm()); assert(y_is(vs[j], s[i].nm())); }
    }
    assert forall|n: Seq<char>| #[trigger] hit(c, n) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == n by {
        if hit(b, n) { let q = |x: Field| x.nm() == n && matches(x.nm(), ystr(vs[k]).unwrap()); assert(any_sel(s, q)); let i = choose|i: int| 0 <= i < s.len() && q(#[trigger] s[i]); assert(s[i].nm() == n); }
    }
}
// what the collected names mean
pub open spec fn got(s: Seq<Field>, key: Seq<char>, v: Option<Yaml>, names: Seq<String>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (hit(names, s[i].nm()) <==> m_p(key, v)(s[i]))
    &&& (names.len() > 0 <==> any_sel(s, m_p(key, v)))
    &&& forall|j: int| 0 <= j < names.len() ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == (#[trigger] names[j])@
}
pub proof fn lemma_got_one(s: Seq<Field>, key: Seq<char>, v: Option<Yaml>, x: Seq<char>, names: Seq<String>)
    requires names_of(s, x, names), match v { None => x == key, Some(Yaml::String(z)) => x == z@, _ => false }
    ensures got(s, key, v, names)
{
    let p = m_p(key, v);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies (named::<Field>(x)(s[i]) <==> p(s[i])) by {}
    if any_sel(s, p) { let i = choose|i: int| 0 <= i < s.len() && p(#[trigger] s[i]); assert(named::<Field>(x)(s[i])); }
    if any_sel(s, named::<Field>(x)) { let i = choose|i: int| 0 <= i < s.len() && named::<Field>(x)(#[trigger] s[i]); assert(p(s[i])); }
    assert forall|j: int| 0 <= j < names.len() implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == (#[trigger] names[j])@ by {
        let n = names[j]@; assert(hit(names, n)); let q = |f: Field| f.nm() == n && matches(f.nm(), x); assert(any_sel(s, q)); let i = choose|i: int| 0 <= i < s.len() && q(#[trigger] s[i]); assert(s[i].nm() == n);
    }
}
pub proof fn lemma_got_array(s: Seq<Field>, key: Seq<char>, v: Option<Yaml>, vs: Seq<Yaml>, names: Seq<String>)
    requires names_upto(s, vs, vs.len() as int, names), match v { Some(Yaml::Array(z)) => z@ == vs, _ => false }
    ensures got(s, key, v, names)
{
    let p = m_p(key, v);
    assert forall|j: int| 0 <= j < names.len() implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == (#[trigger] names[j])@ by { assert(hit(names, names[j]@)); }
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies (hit(names, s[i].nm()) <==> p(s[i])) by {}
    if names.len() > 0 { assert(hit(names, names[0]@)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == names[0]@; assert(p(s[i])); }
    if any_sel(s, p) { let i = choose|i: int| 0 <= i < s.len() && p(#[trigger] s[i]); assert(hit(names, s[i].nm())); }
}
pub proof fn lemma_merge_done(s0: Seq<Field>, t: Seq<Field>, key: Seq<char>, v: Option<Yaml>, names: Seq<String>, f: Field, k: int)
    requires got(s0, key, v, names), names.len() > 0, first_sel(s0, m_p(key, v), k), merged(f, s0, m_p(key, v), k),
        t == s0.filter(|f: Field| !hit(names, ma(f).name@)).insert(k, f),
        s0.filter(|f: Field| !hit(names, ma(f).name@)) =~= s0.subrange(0, k) + s0.skip(k).filter(|x: Field| !m_p(key, v)(x)),
        v is Some ==> ma(f).name@ == key, v is None ==> common_prefix(names, ma(f).name@) && forall|p: Seq<char>| #[trigger] common_prefix(names, p) ==> p.len() <= ma(f).name@.len(),
    ensures merge_done(s0, t, key, v)
{
    let p = m_p(key, v);
    assert(t =~= s0.subrange(0, k).push(f) + s0.skip(k).filter(|x: Field| !p(x)));
    if v is None {
        assert forall|i: int| 0 <= i < s0.len() && p(#[trigger] s0[i]) implies has_prefix(s0[i].nm(), ma(f).name@) by { assert(hit(names, s0[i].nm())); let j = choose|j: int| 0 <= j < names.len() && (#[trigger] names[j])@ == s0[i].nm(); assert(has_prefix(names[j]@, ma(f).name@)); }
        assert forall|q: Seq<char>| (forall|i: int| 0 <= i < s0.len() && p(#[trigger] s0[i]) ==> has_prefix(s0[i].nm(), q)) implies #[trigger] q.len() <= ma(f).name@.len() by {
            assert forall|j: int| 0 <= j < names.len() implies has_prefix((#[trigger] names[j])@, q) by { let i = choose|i: int| 0 <= i < s0.len() && (#[trigger] s0[i]).nm() == names[j]@; assert(hit(names, s0[i].nm())); assert(p(s0[i])); }
            assert(common_prefix(names, q));
        }
    }
}
//@fn src/patch/register.rs | RegisterExt for Register | merge_fields
//@self Register
//@attr #[verifier::loop_isolation(false)]
//@sub .map(|f| f.name.to_string()) =>> .names_v()
//@sub commands::util::longest_common_prefix( names.iter().map(|n| n.as_str()).collect(), ) .to_string() =>> lcp_v(&names)
//@sub desc.clone_from(&f.description) =>> desc = f.description.clone()
//@spec
    requires wsum(reg_fields(*old(self_)), m_p(key@, yv(value)), reg_fields(*old(self_)).len() as int) <= u32::MAX
    ensures !any_sel(reg_fields(*old(self_)), m_p(key@, yv(value))) ==> r is Err,
        r is Ok ==> reg_fields_frame(*final(self_), *old(self_)) && merge_done(reg_fields(*old(self_)), reg_fields(*final(self_)), key@, yv(value)),
//@start
    let ghost s0_ = reg_fields(*self_); let ghost r0_ = *self_; let ghost p_ = m_p(key@, yv(value)); let ghost v_ = yv(value);
//@loop 1 it
    invariant it.seq().len() == value@.len(), forall|j: int| 0 <= j < value@.len() ==> *(#[trigger] it.seq()[j]) == value@[j],
        reg_fields(*self_) == s0_, reg_fields_frame(*self_, r0_), names_upto(s0_, value@, it.index(), sv(names)),
//@loop-start 1
    let ghost n0_ = sv(names);
    proof { assert(*it.seq()[it.index()] == value@[it.index()]); }
//@loop-end 1
    proof { let x_ = ystr(value@[it.index()]).unwrap(); assert(exists|b: Seq<String>| sv(names) == n0_ + b && names_of(s0_, x_, b)); lemma_upto(s0_, value@, it.index(), n0_, sv(names)); }
//@before "if names.is_empty()"
    proof {
        assert(got(s0_, key@, v_, names@)) by {
            match v_ { Some(Yaml::Array(vs)) => { lemma_got_array(s0_, key@, v_, vs@, names@); } Some(Yaml::String(x)) => { lemma_got_one(s0_, key@, v_, x@, names@); } None => { lemma_got_one(s0_, key@, v_, key@, names@); } _ => {} }
        }
    }
//@before-loop 2
    proof { lemma_wsum(s0_, p_, 0, 0); }
//@loop 2 it2 hoist
    invariant it2.seq() == g2_, forall|j: int| 0 <= j < it2.index() ==> *final(#[trigger] g2_[j].1) == *g2_[j].1,
        bitwidth == wsum(s0_, p_, it2.index()), bitoffset == omin(s0_, p_, it2.index()),
        first == (forall|i: int| 0 <= i < it2.index() ==> !p_(#[trigger] s0_[i])),
        first ==> pos == usize::MAX, !first ==> pos < it2.index() && first_sel(s0_, p_, pos as int) && desc == ma(s0_[pos as int]).description,
//@loop-start 2
    proof { lemma_wsum(s0_, p_, it2.index() + 1, s0_.len() as int); assert(*g2_[it2.index()].1 == s0_[it2.index()]); }
//@after-loop 2
    proof {
        let k = choose|i: int| 0 <= i < s0_.len() && p_(#[trigger] s0_[i]);
        assert(p_(s0_[k]));
        assert(fields@ =~= s0_);
        lemma_filter_first(s0_, p_, |f: Field| !hit(names@, ma(f).name@), pos as int);
    }
//@before "fields.insert("
    proof { let q_ = |f: Field| !hit(names@, ma(f).name@); assert(fields@ == s0_.filter(q_)); assert(fields@.len() >= pos); assert(pos <= fields@.len()); }
//@after "fields.insert("
    proof { lemma_merge_done(s0_, fields@, key@, v_, names@, fields@[pos as int], pos as int); }
//@closure 5 |$1: &Field| -> (b: bool)
    ensures b == !hit(names@, ma(*$1).name@)
//@end
}
fn main(){}
