//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_clone.rs p_fmt.rs p_bld.rs
//@use p_coll.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_block.rs p_spec.rs

//@wrap skip values into_iter min_by_key contains
fn main(){}
verus! {
//@type src/patch/mod.rs | EnumAutoDerive
//@type src/patch/mod.rs | Config
//@type src/patch/mod.rs | VAL_LVL
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Config) { unimplemented!() } }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBPath(svd_parser::expand::BlockPath);
pub type BlockPath = svd_parser::expand::BlockPath;
pub open spec fn kw_c_spec(s: Seq<char>) -> bool { s == "_include"@ || s == "_path"@ || s == "_delete"@ || s == "_copy"@ || s == "_strip"@ || s == "_strip_end"@ || s == "_prefix"@ || s == "_suffix"@ || s == "_modify"@ || s == "_clear_fields"@ || s == "_add"@ || s == "_derive"@ || s == "_expand_array"@ || s == "_expand_cluster"@ || s == "_array"@ || s == "_cluster"@ || s == "_clusters"@ }
//@words kw_c | src/patch/peripheral.rs | ClusterExt | KEYWORDS
// TRUSTED (std): the dictionary of groups in the order they were found
#[verifier::external_body] pub struct LMap<'a> { v: Vec<(String, (&'a Yaml, Vec<Register>))> }
impl<'a> View for LMap<'a> { type V = Seq<(String, (&'a Yaml, Vec<Register>))>; uninterp spec fn view(&self) -> Seq<(String, (&'a Yaml, Vec<Register>))>; }
pub open spec fn firsts<A, B>(s: Seq<(A, B)>) -> Seq<A> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn seconds<A, B>(s: Seq<(A, B)>) -> Seq<B> { Seq::new(s.len(), |i: int| s[i].1) }
impl<'a> LMap<'a> {
    #[verifier::external_body] pub fn new() -> (r: LMap<'a>) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: (&'a Yaml, Vec<Register>)) ensures (forall|i: int| 0 <= i < old(self)@.len() ==> (#[trigger] old(self)@[i]).0@ != k@) ==> final(self)@ == old(self)@.push((k, v)) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn values_v<'b>(&'b self) -> (r: Vec<&'b (&'a Yaml, Vec<Register>)>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i].1 { unimplemented!() }
    #[verifier::external_body] pub fn into_iter_v(self) -> (r: Vec<(String, (&'a Yaml, Vec<Register>))>) ensures r@ == self@ { unimplemented!() }
}
pub trait SecondsX<'b, A, B> { fn seconds_v(self) -> Vec<&'b B>; }
impl<'b, A, B> SecondsX<'b, A, B> for Vec<&'b (A, B)> { #[verifier::external_body] fn seconds_v(self) -> (r: Vec<&'b B>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *r@[i] == (*self@[i]).1 { unimplemented!() } }
pub trait SkipX<T> { fn skip_v(self, n: usize) -> Vec<T>; }
impl<T> SkipX<T> for Vec<T> { #[verifier::external_body] fn skip_v(self, n: usize) -> (r: Vec<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() } }
pub trait LeastX<'b, T: 'b>: Sized { spec fn its_(&self) -> Seq<&'b T>; fn min_by_key_v<F: Fn(&&'b T) -> u32>(self, f: F) -> (r: Option<&'b T>) requires forall|i: int| 0 <= i < self.its_().len() ==> f.requires((&#[trigger] self.its_()[i],))
    ensures match r { None => self.its_().len() == 0, Some(x) => exists|k: Seq<u32>, j: int| #[trigger] told_e(f, self.its_(), k) && 0 <= j < k.len() && x == #[trigger] self.its_()[j] && forall|i: int| #![trigger k[i]] #![trigger self.its_()[i]] 0 <= i < k.len() ==> k[j] <= k[i] }; }
impl<'b, T: 'b> LeastX<'b, T> for Vec<&'b T> { open spec fn its_(&self) -> Seq<&'b T> { self@ } #[verifier::external_body] fn min_by_key_v<F: Fn(&&'b T) -> u32>(self, f: F) -> (r: Option<&'b T>) { unimplemented!() } }
pub uninterp spec fn has_sub(s: Seq<char>, p: Seq<char>) -> bool;
pub trait ContX { fn contains_v(&self, p: &str) -> bool; }
impl ContX for str { #[verifier::external_body] fn contains_v(&self, p: &str) -> (r: bool) ensures r <==> has_sub(self@, p@) { self.contains(p) } }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] pub fn texts_ne(a: &Vec<String>, b: &Vec<String>) -> (r: bool) ensures r <==> texts(a@) != texts(b@) { a != b }
#[verifier::external_body] pub fn dim_eq(a: &DimElement, b: &DimElement) -> (r: bool) ensures r <==> *a == *b { a == b }
#[verifier::external_body] pub fn str_is(a: &str, b: &str) -> (r: bool) ensures r <==> a@ == b@ { a == b }
#[verifier::external_body] pub fn described(a: &str, b: &Vec<String>) -> String { unimplemented!() }
#[verifier::external_body] pub fn below(path: &BlockPath, n: &str) -> BlockPath { unimplemented!() }
pub assume_specification<T> [MaybeArray::<T>::is_single](x: &MaybeArray<T>) -> (r: bool) ensures r <==> *x is Single;
// the pattern among several that a name matches (see matchsubspec in u_match)
pub uninterp spec fn sub_of(n: Seq<char>, q: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn matchsubspec<'a>(name: &str, spec: &'a str) -> (r: Option<&'a str>) ensures r is Some <==> matches(name@, spec@), r is Some ==> r.unwrap()@ == sub_of(name@, spec@) { unimplemented!() }
#[verifier::external_body] pub fn Register__process(self_: &mut Register, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult)
    ensures $but(reg, ma(*final(self_)), ma(*old(self_)), fields), ma_shape(*final(self_), *old(self_)) { unimplemented!() }
pub uninterp spec fn before(c: Cluster, h: Hash, d: Cluster) -> bool;
pub uninterp spec fn afterwards(c: Cluster, h: Hash, d: Cluster) -> bool;
#[verifier::external_body] pub fn Cluster__pre_process(self_: &mut Cluster, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult) ensures r is Ok ==> before(*old(self_), *h_, *final(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__post_process(self_: &mut Cluster, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult) ensures r is Ok ==> afterwards(*old(self_), *h_, *final(self_)) { unimplemented!() }
// ---- SPECIFICATION ----
pub open spec fn no_reg(e: (Yaml, Yaml)) -> bool { kstr(e.0) == "description"@ || kstr(e.0) == "dimIncrement"@ || kw_c(kstr(e.0)) }
pub open spec fn chosen(c: RegisterCluster, q: Seq<char>) -> bool { match c { RegisterCluster::Register(x) => matches(ma(x).name@, q), _ => false } }
pub open spec fn picked(s: Seq<RegisterCluster>, q: Seq<char>, n: int) -> Seq<Register> decreases n { if n <= 0 { Seq::empty() } else if chosen(s[n - 1], q) { picked(s, q, n - 1).push(as_Register(s[n - 1]).unwrap()) } else { picked(s, q, n - 1) } }
pub open spec fn left(s: Seq<RegisterCluster>, q: Seq<char>, n: int) -> Seq<RegisterCluster> decreases n { if n <= 0 { Seq::empty() } else if chosen(s[n - 1], q) { left(s, q, n - 1) } else { left(s, q, n - 1).push(s[n - 1]) } }
// the children that the first n entries leave, and the registers each takes
pub open spec fn rest(s: Seq<RegisterCluster>, h: Seq<(Yaml, Yaml)>, n: int) -> Seq<RegisterCluster> decreases n { if n <= 0 { s } else { let r = rest(s, h, n - 1); if no_reg(h[n - 1]) { r } else { left(r, sel(kstr(h[n - 1].0)), r.len() as int) } } }
pub open spec fn takes(s: Seq<RegisterCluster>, h: Seq<(Yaml, Yaml)>, n: int) -> Seq<Register> { let r = rest(s, h, n); picked(r, sel(kstr(h[n].0)), r.len() as int) }
pub struct Group { pub q: Seq<char>, pub m: Yaml, pub t: Seq<Register> }
pub open spec fn groups(s: Seq<RegisterCluster>, h: Seq<(Yaml, Yaml)>, n: int) -> Seq<Group> decreases n {
    if n <= 0 { Seq::empty() } else if no_reg(h[n - 1]) || takes(s, h, n - 1).len() == 0 { groups(s, h, n - 1) } else { groups(s, h, n - 1).push(Group { q: sel(kstr(h[n - 1].0)), m: h[n - 1].1, t: takes(s, h, n - 1) }) } }
pub open spec fn none_missing(s: Seq<RegisterCluster>, h: Seq<(Yaml, Yaml)>, n: int) -> bool { forall|j: int| #![trigger h[j]] 0 <= j < n && !no_reg(h[j]) && takes(s, h, j).len() == 0 ==> sel_opt(kstr(h[j].0)) }
pub open spec fn taken(c: RegisterCluster, g: Seq<Group>) -> bool { exists|i: int| 0 <= i < g.len() && chosen(c, (#[trigger] g[i]).q) }
pub open spec fn first_taken(s: Seq<RegisterCluster>, g: Seq<Group>, k: int) -> bool { 0 <= k < s.len() && taken(s[k], g) && forall|j: int| 0 <= j < k ==> !taken(#[trigger] s[j], g) }
// what stands for the i-th element in its name
pub open spec fn stands(t: Register, q: Seq<char>, v: Seq<char>) -> bool { let n = ma(t).name@; let m = sub_of(n, q); ind(m) is Some && is_cut(n, ind(m).unwrap().0, blen(n) - ind(m).unwrap().1, v) }
pub open spec fn evenly(t: Seq<Register>, inc: int) -> bool { forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> ma(t[i]).address_offset == ma(t[0]).address_offset + i * inc }
// registers that can stand for the elements of one member
pub open spec fn agree(t: Seq<Register>, q: Seq<char>, inc: int, v: Seq<Seq<char>>) -> bool {
    evenly(t, inc) && t.len() == v.len() && (forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> stands(t[i], q, v[i])) && (forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> mask(ma(t[i])) == mask(ma(t[0])))
}
pub open spec fn cut_name(q: Seq<char>, n: Seq<char>) -> bool { ind(q) is Some && exists|p: Seq<char>, s: Seq<char>| n == #[trigger] (p + s) && has_prefix(q, p) && has_suffix(q, s) && blen(p) == ind(q).unwrap().0 && blen(s) == ind(q).unwrap().1 }
// the member made of a group: its first register at its place in the cluster
pub open spec fn member(c: RegisterCluster, t: Seq<Register>, g: Group, base: u32, single: bool) -> bool {
    match c { RegisterCluster::Cluster(_) => false, RegisterCluster::Register(r) => {
        &&& t.len() == g.t.len() && t.len() > 0 && t.to_multiset() == g.t.to_multiset()
        &&& ma_shape(r, t[0]) && $but(reg, ma(r), ma(t[0]), name description fields address_offset) && base + ma(r).address_offset == ma(t[0]).address_offset
        &&& yhash(g.m) is Some && match yget(yhash(g.m).unwrap(), "name"@) { Some(n) => ystr(n) == Some(ma(r).name@), None => if single { ma(r).name@ == ma(t[0]).name@ } else { cut_name(g.q, ma(r).name@) } } } } }
pub open spec fn cluster_of(y: Cluster, gs: Seq<Group>, ts: Seq<Seq<Register>>, cname: Seq<char>) -> bool {
    let x = ma(y); let single = !has_sub(cname, "%s"@);
    &&& x.name@ == cname && x.children@.len() == gs.len() && ts.len() == gs.len()
    &&& forall|j: int| #![trigger gs[j]] #![trigger ts[j]] #![trigger x.children@[j]] 0 <= j < gs.len() ==> member(x.children@[j], ts[j], gs[j], x.address_offset, single)
    &&& exists|j: int| 0 <= j < ts.len() && ma((#[trigger] ts[j])[0]).address_offset == x.address_offset
    &&& match y {
        MaybeArray::Single(_) => single && forall|j: int| #![trigger ts[j]] 0 <= j < ts.len() ==> ts[j].len() == 1,
        MaybeArray::Array(_, d) => !single && d.dim_index is Some && forall|j: int| #![trigger ts[j]] 0 <= j < ts.len() ==> ts[j].len() == d.dim && agree(ts[j], gs[j].q, d.dim_increment as int, texts(d.dim_index.unwrap()@)) && ma(ts[j][0]).address_offset < x.address_offset + d.dim_increment } }
pub open spec fn clustered(s: Seq<RegisterCluster>, o: Seq<RegisterCluster>, h: Hash, cname: Seq<char>) -> bool {
    let e = hents(h); let n = e.len() as int; let gs = groups(s, e, n);
    gs.len() > 0 && none_missing(s, e, n) && exists|y: Cluster, y1: Cluster, y2: Cluster, ts: Seq<Seq<Register>>, k: int| #[trigger] cluster_of(y, gs, ts, cname) && #[trigger] before(y, h, y1) && #[trigger] afterwards(y1, h, y2)
        && #[trigger] first_taken(s, gs, k) && k <= rest(s, e, n).len() && o == rest(s, e, n).insert(k, RegisterCluster::Cluster(y2)) }
pub open spec fn all_small(s: Seq<RegisterCluster>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() && as_Register(s[i]) is Some ==> small(ma(as_Register(s[i]).unwrap())) }
// ---- PROOF ----
pub open spec fn by_addr(t: Seq<Register>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> ma(#[trigger] t[i]).address_offset <= ma(#[trigger] t[j]).address_offset }
pub broadcast proof fn lemma_by_addr<F: Fn(&Register) -> u32>(f: F, s: Seq<Register>, k: Seq<u32>)
    requires #[trigger] told_e(f, s, k), ascends(k), forall|x: &Register, y: u32| f.ensures((x,), y) ==> y == ma(*x).address_offset
    ensures by_addr(s)
{ assert forall|i: int, j: int| 0 <= i < j < s.len() implies ma(#[trigger] s[i]).address_offset <= ma(#[trigger] s[j]).address_offset by { assert(k[i] <= k[j]); } }
pub proof fn lemma_none(s: Seq<RegisterCluster>, q: Seq<char>, n: int) requires 0 <= n <= s.len() ensures picked(s, q, n).len() == 0 ==> left(s, q, n) == s.take(n), picked(s, q, n).len() + left(s, q, n).len() == n, (forall|j: int| 0 <= j < n ==> !chosen(#[trigger] s[j], q)) ==> picked(s, q, n).len() == 0 decreases n
{ if n > 0 { lemma_none(s, q, n - 1); assert(s.take(n - 1).push(s[n - 1]) =~= s.take(n)); assert(chosen(s[n - 1], q) || picked(s, q, n) == picked(s, q, n - 1)); } else { assert(s.take(0) =~= Seq::empty()); } }
pub open spec fn all_fit(t: Seq<Register>, q: Seq<char>) -> bool { forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> small(ma(t[i])) && matches(ma(t[i]).name@, q) }
pub proof fn lemma_picked(s: Seq<RegisterCluster>, q: Seq<char>, n: int)
    requires 0 <= n <= s.len(), all_small(s) ensures all_fit(picked(s, q, n), q) decreases n
{ if n > 0 { lemma_picked(s, q, n - 1); if chosen(s[n - 1], q) { assert(small(ma(as_Register(s[n - 1]).unwrap()))); let a = picked(s, q, n - 1); assert forall|i: int| #![trigger picked(s, q, n)[i]] 0 <= i < picked(s, q, n).len() implies small(ma(picked(s, q, n)[i])) && matches(ma(picked(s, q, n)[i]).name@, q) by { if i < a.len() { assert(small(ma(a[i]))); } } } } }
pub proof fn lemma_fit_perm(t: Seq<Register>, t0: Seq<Register>, q: Seq<char>) requires t.to_multiset() == t0.to_multiset(), all_fit(t0, q) ensures all_fit(t, q)
{ lemma_same_elems(t, t0); assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies small(ma(t[i])) && matches(ma(t[i]).name@, q) by { let j = choose|j: int| 0 <= j < t0.len() && t0[j] == t[i]; assert(small(ma(t0[j]))); } }
pub open spec fn free(r: Seq<RegisterCluster>, g: Seq<Group>) -> bool { forall|i: int, j: int| #![trigger r[i], g[j]] 0 <= i < r.len() && 0 <= j < g.len() ==> !chosen(r[i], g[j].q) }
pub proof fn lemma_left(s: Seq<RegisterCluster>, q: Seq<char>, n: int, g: Seq<Group>)
    requires 0 <= n <= s.len(), all_small(s), free(s, g)
    ensures all_small(left(s, q, n)), free(left(s, q, n), g), forall|i: int| #![trigger left(s, q, n)[i]] 0 <= i < left(s, q, n).len() ==> !chosen(left(s, q, n)[i], q)
    decreases n
{
    if n > 0 { lemma_left(s, q, n - 1, g); let a = left(s, q, n - 1); let b = left(s, q, n);
        if !chosen(s[n - 1], q) {
            assert(b == a.push(s[n - 1]));
            assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() && as_Register(b[i]) is Some implies small(ma(as_Register(b[i]).unwrap())) by { if i < a.len() { assert(b[i] == a[i]); assert(small(ma(as_Register(a[i]).unwrap()))); } else { assert(b[i] == s[n - 1]); } }
            assert forall|i: int, j: int| #![trigger b[i], g[j]] 0 <= i < b.len() && 0 <= j < g.len() implies !chosen(b[i], g[j].q) by { if i < a.len() { assert(b[i] == a[i]); } else { assert(b[i] == s[n - 1]); } }
            assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies !chosen(b[i], q) by { if i < a.len() { assert(b[i] == a[i]); } }
        } }
}
pub open spec fn first_in(s: Seq<RegisterCluster>, q: Seq<char>, k: int) -> bool { 0 <= k < s.len() && chosen(s[k], q) && forall|j: int| 0 <= j < k ==> !chosen(#[trigger] s[j], q) }
pub proof fn lemma_take(s: Seq<RegisterCluster>, q: Seq<char>, k: int, n: int)
    requires 0 <= k <= n <= s.len(), forall|j: int| 0 <= j < k ==> !chosen(#[trigger] s[j], q)
    ensures left(s, q, n).len() >= k, left(s, q, n).take(k) == s.take(k) decreases n
{
    if n > k { lemma_take(s, q, k, n - 1); assert(left(s, q, n).take(k) =~= left(s, q, n - 1).take(k)); }
    else { lemma_none(s, q, n); assert(left(s, q, n) == s.take(n)); assert(s.take(n).take(k) =~= s.take(k)); }
}
pub open spec fn placed(s: Seq<RegisterCluster>, r: Seq<RegisterCluster>, g: Seq<Group>, p: int) -> bool {
    if g.len() == 0 { p == usize::MAX && r == s } else { first_taken(s, g, p) && p <= r.len() && r.take(p) == s.take(p) } }
pub proof fn lemma_placed(s: Seq<RegisterCluster>, r: Seq<RegisterCluster>, g: Seq<Group>, x: Group, p: int, f: int)
    requires placed(s, r, g, p), first_in(r, x.q, f), s.len() <= usize::MAX
    ensures placed(s, left(r, x.q, r.len() as int), g.push(x), if p <= f { p } else { f })
{
    let m = if p <= f { p } else { f }; let g1 = g.push(x); let o = left(r, x.q, r.len() as int);
    assert forall|j: int| 0 <= j < m implies !chosen(#[trigger] r[j], x.q) by {}
    lemma_take(r, x.q, m, r.len() as int);
    assert(o.take(m) == r.take(m));
    assert(r.take(m) =~= s.take(m)) by { if g.len() > 0 { assert(r.take(p).take(m) =~= r.take(m)); assert(s.take(p).take(m) =~= s.take(m)); } }
    assert(g1[g.len() as int] == x);
    assert(taken(s[m], g1)) by { if p <= f { let i = choose|i: int| 0 <= i < g.len() && chosen(s[p], (#[trigger] g[i]).q); assert(g1[i] == g[i]); }
        else { if g.len() > 0 { assert(r.take(p)[f] == s.take(p)[f]); } assert(s[f] == r[f]); } }
    assert forall|j: int| 0 <= j < m implies !taken(#[trigger] s[j], g1) by {
        if g.len() > 0 { assert(r.take(p)[j] == s.take(p)[j]); } assert(s[j] == r[j]); assert(!chosen(r[j], x.q));
        if taken(s[j], g1) { let i = choose|i: int| 0 <= i < g1.len() && chosen(s[j], (#[trigger] g1[i]).q); if i < g.len() { assert(g[i] == g1[i]); assert(taken(s[j], g)); } } }
}
pub proof fn lemma_evenly(t: Seq<Register>, k: Seq<u32>, inc: int, n: int)
    requires 0 <= n < t.len(), k.len() == t.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == ma(t[i]).address_offset, forall|i: int| 0 <= i < k.len() - 1 ==> #[trigger] k[i + 1] - k[i] == inc
    ensures ma(t[n]).address_offset == ma(t[0]).address_offset + n * inc decreases n
{ if n > 0 { lemma_evenly(t, k, inc, n - 1); assert(k[n - 1 + 1] - k[n - 1] == inc); assert(n * inc == (n - 1) * inc + inc) by (nonlinear_arith); assert(k[n] == ma(t[n]).address_offset); assert(k[n - 1] == ma(t[n - 1]).address_offset); } else { assert(0 * inc == 0); } }
pub proof fn lemma_is_even(t: Seq<Register>, k: Seq<u32>, inc: int)
    requires k.len() == t.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == ma(t[i]).address_offset, forall|i: int| 0 <= i < k.len() - 1 ==> #[trigger] k[i + 1] - k[i] == inc
    ensures evenly(t, inc) { assert forall|n: int| #![trigger t[n]] 0 <= n < t.len() implies ma(t[n]).address_offset == ma(t[0]).address_offset + n * inc by { lemma_evenly(t, k, inc, n); } }
pub proof fn lemma_cut(q: Seq<char>, p: Seq<char>, s: Seq<char>) requires has_prefix(q, p), has_suffix(q, s), ind(q) is Some, blen(p) == ind(q).unwrap().0, blen(s) == ind(q).unwrap().1 ensures cut_name(q, p + s) {}
pub proof fn lemma_stands(t: Register, q: Seq<char>, v: Seq<char>) requires ({ let n = ma(t).name@; let m = sub_of(n, q); ind(m) is Some && is_cut(n, ind(m).unwrap().0, blen(n) - ind(m).unwrap().1, v) }) ensures stands(t, q, v) {}
// what the dictionary holds
pub open spec fn held(rd: Seq<(String, (&Yaml, Vec<Register>))>, g: Seq<Group>) -> bool { rd.len() == g.len() && forall|j: int| #![trigger rd[j]] #![trigger g[j]] 0 <= j < rd.len() ==> rd[j].0@ == g[j].q && *rd[j].1.0 == g[j].m && rd[j].1.1@.len() == g[j].t.len() && rd[j].1.1@.len() > 0 && rd[j].1.1@.to_multiset() == g[j].t.to_multiset() }
pub open spec fn one_fits(t: Seq<Register>, q: Seq<char>, single: bool, dim: int, inc: int, v: Seq<Seq<char>>) -> bool { if single { t.len() == 1 } else { t.len() == dim && agree(t, q, inc, v) } }
pub open spec fn fits(rd: Seq<(String, (&Yaml, Vec<Register>))>, g: Seq<Group>, single: bool, dim: int, inc: int, v: Seq<Seq<char>>) -> bool { forall|j: int| #![trigger rd[j]] #![trigger g[j]] 0 <= j < rd.len() ==> one_fits(rd[j].1.1@, g[j].q, single, dim, inc, v) }
pub proof fn lemma_held_at(rd: Seq<(String, (&Yaml, Vec<Register>))>, g: Seq<Group>, j: int) requires held(rd, g), 0 <= j < rd.len() ensures rd.len() == g.len(), rd[j].0@ == g[j].q, *rd[j].1.0 == g[j].m, rd[j].1.1@.len() == g[j].t.len(), rd[j].1.1@.len() > 0, rd[j].1.1@.to_multiset() == g[j].t.to_multiset() {}
pub proof fn lemma_held(rd: Seq<(String, (&Yaml, Vec<Register>))>, g: Seq<Group>) requires held(rd, g) ensures rd.len() == g.len(), forall|j: int| #![trigger rd[j]] 0 <= j < rd.len() ==> rd[j].1.1@.len() > 0 {}
// no group held so far has this selector: it would have taken these registers already
pub proof fn lemma_fresh(rd: Seq<(String, (&Yaml, Vec<Register>))>, g: Seq<Group>, r: Seq<RegisterCluster>, q: Seq<char>, f: int) requires held(rd, g), free(r, g), first_in(r, q, f) ensures forall|j: int| 0 <= j < rd.len() ==> (#[trigger] rd[j]).0@ != q
{ assert forall|j: int| 0 <= j < rd.len() implies (#[trigger] rd[j]).0@ != q by { assert(g[j].q == rd[j].0@); if g[j].q == q { assert(!chosen(r[f], g[j].q)); } } }
pub proof fn lemma_step(rd: Seq<(String, (&Yaml, Vec<Register>))>, e: (String, (&Yaml, Vec<Register>)), g: Seq<Group>, x: Group, single: bool, dim: int, inc: int, v: Seq<Seq<char>>)
    requires held(rd, g), rd.len() == 0 || fits(rd, g, single, dim, inc, v), e.0@ == x.q, *e.1.0 == x.m, e.1.1@.len() == x.t.len(), e.1.1@.len() > 0, e.1.1@.to_multiset() == x.t.to_multiset(), one_fits(e.1.1@, x.q, single, dim, inc, v)
    ensures held(rd.push(e), g.push(x)), fits(rd.push(e), g.push(x), single, dim, inc, v)
{ let rd1 = rd.push(e); let g1 = g.push(x);
  assert forall|j: int| #![trigger rd1[j]] #![trigger g1[j]] 0 <= j < rd1.len() implies rd1[j].0@ == g1[j].q && *rd1[j].1.0 == g1[j].m && rd1[j].1.1@.len() == g1[j].t.len() && rd1[j].1.1@.len() > 0 && rd1[j].1.1@.to_multiset() == g1[j].t.to_multiset() && one_fits(rd1[j].1.1@, g1[j].q, single, dim, inc, v) by { if j < g.len() { assert(rd1[j] == rd[j]); assert(g1[j] == g[j]); } } }
pub proof fn lemma_free(r: Seq<RegisterCluster>, g: Seq<Group>, x: Group) requires free(r, g), forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> !chosen(r[i], x.q) ensures free(r, g.push(x))
{ let g1 = g.push(x); assert forall|i: int, j: int| #![trigger r[i], g1[j]] 0 <= i < r.len() && 0 <= j < g1.len() implies !chosen(r[i], g1[j].q) by { if j < g.len() { assert(g1[j] == g[j]); } } }
pub proof fn lemma_entry(s: Seq<RegisterCluster>, e: Seq<(Yaml, Yaml)>, k: int) requires 0 <= k < e.len()
    ensures ({ let r = rest(s, e, k); let q = sel(kstr(e[k].0)); let t = picked(r, q, r.len() as int);
        &&& rest(s, e, k + 1) == if no_reg(e[k]) { r } else { left(r, q, r.len() as int) }
        &&& groups(s, e, k + 1) == if no_reg(e[k]) || t.len() == 0 { groups(s, e, k) } else { groups(s, e, k).push(Group { q: q, m: e[k].1, t: t }) }
        &&& none_missing(s, e, k) && (no_reg(e[k]) || t.len() > 0 || sel_opt(kstr(e[k].0))) ==> none_missing(s, e, k + 1) })
{ }
pub proof fn lemma_empty(s: Seq<RegisterCluster>, e: Seq<(Yaml, Yaml)>, rd: Seq<(String, (&Yaml, Vec<Register>))>, single: bool, dim: int, inc: int, v: Seq<Seq<char>>) requires rd.len() == 0
    ensures rest(s, e, 0) == s, groups(s, e, 0).len() == 0, placed(s, s, groups(s, e, 0), usize::MAX as int), none_missing(s, e, 0), held(rd, groups(s, e, 0)), fits(rd, groups(s, e, 0), single, dim, inc, v), free(s, groups(s, e, 0)) {}
pub proof fn lemma_place_out(s: Seq<RegisterCluster>, r: Seq<RegisterCluster>, g: Seq<Group>, p: int) requires placed(s, r, g, p), g.len() > 0 ensures first_taken(s, g, p), p <= r.len() {}
pub open spec fn least(rd: Seq<(String, (&Yaml, Vec<Register>))>, a: u32) -> bool { (forall|j: int| 0 <= j < rd.len() ==> ma((#[trigger] rd[j]).1.1@[0]).address_offset >= a) && exists|j: int| 0 <= j < rd.len() && ma((#[trigger] rd[j]).1.1@[0]).address_offset == a }
pub proof fn lemma_least(rd: Seq<(String, (&Yaml, Vec<Register>))>, a: u32) requires forall|j: int| 0 <= j < rd.len() ==> ma((#[trigger] rd[j]).1.1@[0]).address_offset >= a, exists|j: int| 0 <= j < rd.len() && ma((#[trigger] rd[j]).1.1@[0]).address_offset == a ensures least(rd, a) {}
pub proof fn lemma_least_at(rd: Seq<(String, (&Yaml, Vec<Register>))>, a: u32, j: int) requires least(rd, a), 0 <= j < rd.len() ensures ma(rd[j].1.1@[0]).address_offset >= a {}
pub open spec fn members(ch: Seq<RegisterCluster>, rd: Seq<(String, (&Yaml, Vec<Register>))>, g: Seq<Group>, base: u32, single: bool, inc: u32, n: int) -> bool {
    ch.len() == n && forall|j: int| #![trigger ch[j]] #![trigger g[j]] 0 <= j < n ==> member(ch[j], rd[j].1.1@, g[j], base, single) && (!single ==> ma(rd[j].1.1@[0]).address_offset < base + inc) }
pub proof fn lemma_members0(ch: Seq<RegisterCluster>, rd: Seq<(String, (&Yaml, Vec<Register>))>, g: Seq<Group>, base: u32, single: bool, inc: u32) requires ch.len() == 0 ensures members(ch, rd, g, base, single, inc, 0) {}
pub proof fn lemma_members(ch: Seq<RegisterCluster>, c: RegisterCluster, rd: Seq<(String, (&Yaml, Vec<Register>))>, g: Seq<Group>, base: u32, single: bool, inc: u32, n: int)
    requires members(ch, rd, g, base, single, inc, n), n >= 0, member(c, rd[n].1.1@, g[n], base, single), !single ==> ma(rd[n].1.1@[0]).address_offset < base + inc ensures members(ch.push(c), rd, g, base, single, inc, n + 1)
{ let o = ch.push(c); assert forall|j: int| #![trigger o[j]] #![trigger g[j]] 0 <= j < n + 1 implies member(o[j], rd[j].1.1@, g[j], base, single) && (!single ==> ma(rd[j].1.1@[0]).address_offset < base + inc) by { if j < n { assert(o[j] == ch[j]); } } }
pub open spec fn lists(rd: Seq<(String, (&Yaml, Vec<Register>))>) -> Seq<Seq<Register>> { Seq::new(rd.len(), |j: int| rd[j].1.1@) }
pub proof fn lemma_cluster(y: Cluster, g: Seq<Group>, rd: Seq<(String, (&Yaml, Vec<Register>))>, cname: Seq<char>, single: bool, dim: int, inc: u32, v: Vec<String>)
    requires held(rd, g), fits(rd, g, single, dim, inc as int, texts(v@)), least(rd, ma(y).address_offset), members(ma(y).children@, rd, g, ma(y).address_offset, single, inc, g.len() as int), ma(y).name@ == cname, single == !has_sub(cname, "%s"@),
        match y { MaybeArray::Single(_) => single, MaybeArray::Array(_, d) => !single && d.dim == dim && d.dim_increment == inc && d.dim_index == Some(v) }
    ensures cluster_of(y, g, lists(rd), cname)
{
    let x = ma(y); let ts = lists(rd);
    assert forall|j: int| #![trigger g[j]] #![trigger ts[j]] #![trigger x.children@[j]] 0 <= j < g.len() implies member(x.children@[j], ts[j], g[j], x.address_offset, single) by { assert(ts[j] == rd[j].1.1@); assert(rd[j].0@ == g[j].q); }
    let m = choose|j: int| 0 <= j < rd.len() && ma((#[trigger] rd[j]).1.1@[0]).address_offset == x.address_offset; assert(ts[m] == rd[m].1.1@);
    match y {
        MaybeArray::Single(_) => { assert forall|j: int| #![trigger ts[j]] 0 <= j < ts.len() implies ts[j].len() == 1 by { assert(ts[j] == rd[j].1.1@); } },
        MaybeArray::Array(_, d) => { assert forall|j: int| #![trigger ts[j]] 0 <= j < ts.len() implies ts[j].len() == d.dim && agree(ts[j], g[j].q, d.dim_increment as int, texts(d.dim_index.unwrap()@)) && ma(ts[j][0]).address_offset < x.address_offset + d.dim_increment by { assert(ts[j] == rd[j].1.1@); assert(rd[j].0@ == g[j].q); assert(x.children@[j] == x.children@[j]); } }
    }
}
pub proof fn lemma_some(rd: Seq<(String, (&Yaml, Vec<Register>))>, g: Seq<Group>, dim: int, inc: int, v: Seq<Seq<char>>) requires held(rd, g), g.len() > 0, fits(rd, g, false, dim, inc, v) ensures v.len() == dim, v.len() > 0
{ assert(rd[0].0@ == g[0].q); assert(one_fits(rd[0].1.1@, g[0].q, false, dim, inc, v)); }
pub proof fn lemma_clustered(s: Seq<RegisterCluster>, o: Seq<RegisterCluster>, h: Hash, cname: Seq<char>, y: Cluster, y1: Cluster, y2: Cluster, ts: Seq<Seq<Register>>, k: int)
    requires ({ let e = hents(h); let n = e.len() as int; let gs = groups(s, e, n); gs.len() > 0 && none_missing(s, e, n) && cluster_of(y, gs, ts, cname) && before(y, h, y1) && afterwards(y1, h, y2) && first_taken(s, gs, k) && k <= rest(s, e, n).len() && o == rest(s, e, n).insert(k, RegisterCluster::Cluster(y2)) })
    ensures clustered(s, o, h, cname) {}
pub proof fn lemma_agree(t: Seq<Register>, q: Seq<char>, inc: int, v: Seq<Seq<char>>) requires evenly(t, inc), t.len() == v.len(), forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> stands(t[i], q, v[i]), forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> mask(ma(t[i])) == mask(ma(t[0])) ensures agree(t, q, inc, v) {}
//@fn src/patch/peripheral.rs | collect_in_cluster
//@fmt
//@slices
//@attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(20)]
//@sub super::linked_hash_map::LinkedHashMap::new() =>> LMap::new()
//@sub ["description", "dimIncrement"].contains(&rspec) =>> (str_is(rspec, "description") || str_is(rspec, "dimIncrement"))
//@sub Cluster::KEYWORDS.contains(&rspec) =>> kw_c_has(rspec)
//@sub d == rdim =>> dim_eq(d, rdim)
//@sub Ok(r.name[li..r.name.len() - ri].to_string()) =>> { let k_ = r.name.cut_back_v(li, ri).to_string_v(); proof { lemma_stands(*r, rspec@, k_@); } Ok(k_) }
//@sub dim_index != new_dim_index =>> texts_ne(&dim_index, &new_dim_index)
//@sub map(|v| &v.1) =>> seconds_v()
//@sub format!("Cluster {cname}, containing {}", rspecs.join(", ")) =>> described(cname, &rspecs)
//@sub format!("{}{}", &rspec[..li], &rspec[rspec.len() - ri..]) =>> { let p_ = rspec.cut_to_v(li); let s_ = rspec.cut_from_v(rspec.len_v() - ri); proof { lemma_front(rspec@, li as int, p_@); lemma_back(rspec@, blen(rspec@) - ri, s_@); lemma_cut(rspec@, p_@, s_@); } fmt_new().fmt_d(p_).fmt_d(s_) }
//@sub reg.process( =>> Register__process(&mut reg, 
//@sub cluster.pre_process( =>> Cluster__pre_process(&mut cluster, 
//@sub cluster.post_process( =>> Cluster__post_process(&mut cluster, 
//@sub path.new_cluster(cname) =>> below(path, cname)
//@sub RegisterInfo::get_bitmask(r) =>> get_bitmask(r)
//@spec
    requires all_small(old(regs)@), old(regs)@.len() <= u32::MAX
    ensures r is Ok ==> clustered(old(regs)@, final(regs)@, *cmod, cname@),
//@start
    hide(stands); hide(is_cut); hide(has_prefix); hide(has_suffix); hide(cut_name); hide(evenly); hide(mask); hide(blen); hide(agree);
    hide(all_small); hide(free); hide(placed); hide(taken); hide(first_taken); hide(held); hide(fits); hide(none_missing); hide(rest); hide(groups); hide(least); hide(members); hide(cluster_of); hide(clustered);
    broadcast use {lemma_by_addr, lemma_after, lemma_assoc};
    let ghost s_ = regs@; let ghost e_ = hents(*cmod); let ghost mut r_ = regs@; let ghost mut q_ = cname@; let ghost mut n_ = 0int; let ghost mut p0_ = 0int; let ghost mut f_ = 0int;
//@before-loop 1
    proof { lemma_empty(s_, e_, rdict@, single, dim as int, dim_increment as int, texts(dim_index@)); }
//@loop 1 it hoistv
    invariant it.seq() == g1_, eqe(g1_, e_), regs@ == rest(s_, e_, it.index() as int), all_small(regs@), regs@.len() <= s_.len(),
        held(rdict@, groups(s_, e_, it.index() as int)), rdict@.len() == groups(s_, e_, it.index() as int).len(), fits(rdict@, groups(s_, e_, it.index() as int), single, dim as int, dim_increment as int, texts(dim_index@)),
        free(regs@, groups(s_, e_, it.index() as int)), placed(s_, regs@, groups(s_, e_, it.index() as int), place as int), none_missing(s_, e_, it.index() as int),
        !single ==> (first is None <==> groups(s_, e_, it.index() as int).len() == 0) && dim <= u32::MAX,
//@loop-start 1
    let ghost k_ = it.index() as int; let ghost gs_ = groups(s_, e_, k_);
    proof { assert(*g1_[k_].0 == e_[k_].0); lemma_entry(s_, e_, k_); r_ = regs@; q_ = sel(kstr(e_[k_].0)); n_ = 0; f_ = 0; p0_ = place as int; assert(r_.skip(0) =~= r_); assert(left(r_, q_, 0) + r_ =~= r_); }
//@loop 2
    invariant n_ == i + registers@.len(), 0 <= n_ <= r_.len(), regs@ == left(r_, q_, n_) + r_.skip(n_), registers@ == picked(r_, q_, n_), i == left(r_, q_, n_).len(),
        registers@.len() == 0 ==> place == p0_ && forall|j: int| 0 <= j < n_ ==> !chosen(#[trigger] r_[j], q_),
        registers@.len() > 0 ==> first_in(r_, q_, f_) && f_ <= i && place == if p0_ <= f_ { p0_ } else { f_ },
//@loop-start 2
    proof { assert(regs@[i as int] == r_[n_]); }
//@loop-end 2
    proof { if chosen(r_[n_], q_) && registers@.len() == 1 { f_ = n_; } n_ = n_ + 1; assert(regs@ =~= left(r_, q_, n_) + r_.skip(n_)); }
//@after-loop 2
    let ghost t0_ = registers@;
    proof { lemma_none(r_, q_, n_); assert(n_ == r_.len()); assert(r_.skip(n_) =~= Seq::empty()); assert(regs@ =~= left(r_, q_, n_)); assert(r_.take(n_) =~= r_); lemma_left(r_, q_, n_, gs_); lemma_picked(r_, q_, n_); }
//@after "registers.sort_by_key(|r| r.address_offset);"
    let ghost t_ = registers@;
    proof { lemma_fit_perm(t_, t0_, q_); }
//@after "let new_dim_index = new_dim_index?;"
    let ghost v_ = texts(new_dim_index@);
    proof { assert forall|i: int| 0 <= i < offsets@.len() implies #[trigger] offsets@[i] == ma(t_[i]).address_offset by {} assert(ascends(offsets@));
        assert forall|i: int| #![trigger t_[i]] 0 <= i < t_.len() implies stands(t_[i], q_, v_[i]) by { assert(v_[i] == new_dim_index@[i]@); } }
//@before "if !bitmasks.iter()"
    proof { lemma_is_even(t_, offsets@, dim_increment as int); assert(texts(dim_index@) == v_); }
//@after "if !bitmasks.iter()"
    proof { assert forall|i: int| #![trigger t_[i]] 0 <= i < t_.len() implies mask(ma(t_[i])) == mask(ma(t_[0])) by { assert(bitmasks@[i] == mask(ma(t_[i]))); assert(bitmasks@[0] == mask(ma(t_[0]))); assert(bitmasks@[i] == bitmasks@[0]); }
        lemma_agree(t_, q_, dim_increment as int, texts(dim_index@)); }
//@before "rdict.insert("
    let ghost rd0_ = rdict@; let ghost t1_ = registers@; let ghost x_ = Group { q: q_, m: e_[k_].1, t: t0_ };
    proof {
        assert(one_fits(t1_, q_, single, dim as int, dim_increment as int, texts(dim_index@)));
        lemma_placed(s_, r_, gs_, x_, p0_, f_); lemma_fresh(rd0_, gs_, r_, q_, f_); lemma_free(regs@, gs_, x_);
    }
//@after "rdict.insert("
    proof { lemma_step(rd0_, rdict@[rd0_.len() as int], gs_, x_, single, dim as int, dim_increment as int, texts(dim_index@)); assert(rdict@ =~= rd0_.push(rdict@[rd0_.len() as int])); }
//@after-loop 1
    let ghost gs = groups(s_, e_, e_.len() as int); let ghost rd_ = rdict@; let ghost v1_ = dim_index; let ghost o_ = regs@;
    proof { lemma_held(rd_, gs); }
//@after "let address_offset = rdict"
    proof { lemma_least(rd_, address_offset); }
//@before-loop 3
    proof { lemma_members0(children@, rd_, gs, address_offset, true, dim_increment); }
//@loop 3 it3 hoist
    invariant it3.seq() == g3_, g3_ == rd_, members(children@, rd_, gs, address_offset, true, dim_increment, it3.index() as int),
//@loop-start 3
    let ghost k_ = it3.index() as int; let ghost ch_ = children@;
    proof { lemma_held_at(rd_, gs, k_); lemma_least_at(rd_, address_offset, k_); }
//@loop-end 3
    proof { assert(children@ =~= ch_.push(children@[children@.len() - 1])); lemma_members(ch_, children@[children@.len() - 1], rd_, gs, address_offset, true, dim_increment, k_); }
//@before-loop 4
    proof { lemma_members0(children@, rd_, gs, address_offset, false, dim_increment); }
//@loop 4 it4 hoist
    invariant it4.seq() == g4_, g4_ == rd_, members(children@, rd_, gs, address_offset, false, dim_increment, it4.index() as int),
//@loop-start 4
    let ghost k_ = it4.index() as int; let ghost ch_ = children@;
    proof { lemma_held_at(rd_, gs, k_); lemma_least_at(rd_, address_offset, k_); }
//@loop-end 4
    proof { assert(children@ =~= ch_.push(children@[children@.len() - 1])); lemma_members(ch_, children@[children@.len() - 1], rd_, gs, address_offset, false, dim_increment, k_); }
//@before "cluster.pre_process("
    let ghost y_ = cluster;
    proof { if !single { lemma_some(rd_, gs, dim as int, dim_increment as int, texts(v1_@)); assert(texts(v1_@).len() == v1_@.len()); }
        match y_ { MaybeArray::Array(_, d) => { assert(!single); assert(d.dim_index is Some && d.dim_index.unwrap() == v1_); assert(d.dim_increment == dim_increment); assert(d.dim == dim); }, _ => { assert(single); } }
        lemma_cluster(y_, gs, rd_, cname@, single, dim as int, dim_increment, v1_); }
//@before "cluster.post_process("
    let ghost y1_ = cluster;
//@before "regs.insert(place"
    let ghost y2_ = cluster;
    proof { lemma_place_out(s_, o_, gs, place as int); }
//@after "regs.insert(place"
    proof { lemma_clustered(s_, regs@, *cmod, cname@, y_, y1_, y2_, lists(rd_), place as int); }
//@closure 1 |$1: &Register| -> (k: u32)
    ensures k == ma(*$1).address_offset
//@closure 4 |$1: &Register| -> (k: u32)
    ensures k == ma(*$1).address_offset
//@closure 5 |$1: &Register| -> (k: u64)
    requires small(ma(*$1)) ensures k == mask(ma(*$1))
//@closure 6 |$1: &Register| -> (k: Result<String>)
    requires matches(ma(*$1).name@, rspec@) ensures k is Ok ==> stands(*$1, rspec@, k.unwrap()@)
//@closure 7 |$1: &u64| -> (b: bool)
    ensures b == (*$1 == bitmasks@[0])
//@closure 9 |$1: &&Vec<Register>| -> (k: u32)
    requires $1@.len() > 0 ensures k == ma($1@[0]).address_offset
//@end
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | collect_in_cluster
//@name $T__collect_in_cluster
//@self $T
//@spec
    requires all_small(kidz($T_kids(*old(self_)))), kidz($T_kids(*old(self_))).len() <= u32::MAX
    ensures $T_kids_frame(*final(self_), *old(self_)),
        match $T_kids(*old(self_)) { None => *final(self_) == *old(self_) && r is Err,
            Some(k) => r is Ok ==> $T_kids(*final(self_)) is Some && clustered(k, $T_kids(*final(self_)).unwrap(), *cmod, cname@) },
//@end
//@endeach
}
