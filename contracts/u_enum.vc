//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_clone.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs
//@use p_text.rs
//@import p_usage.rs p_ev.rs p_block.rs p_iter.rs p_spec.rs
//@use p_setenum.rs
//@methods Register: present_fields iter_fields fields
//@wrap flat_map filter next iter any enumerate or unwrap_or_default replace min_by_key map min to_string into
verus! {
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExRPath(svd_parser::expand::RegisterPath);
pub type RegisterPath = svd_parser::expand::RegisterPath;
//@type src/patch/mod.rs | EnumAutoDerive
//@type src/patch/mod.rs | Config
pub open spec fn derefs<T>(v: Seq<&T>) -> Seq<T> { Seq::new(v.len(), |i: int| *v[i]) }
// ---- TRUSTED (std, svd-rs) ----
#[verifier::external_body] pub fn Register__present_fields(r: &Register) -> String { unimplemented!() }
#[verifier::external_body] pub fn Register__fields<'a>(r: &'a Register) -> (v: Vec<&'a Field>) ensures derefs(v@) == reg_fields(*r), v@.len() == reg_fields(*r).len(), forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> *v@[i] == reg_fields(*r)[i] { r.fields().collect() }
pub assume_specification [FieldInfo::bit_offset](f: &FieldInfo) -> (r: u32) ensures r == f.bit_range.offset;
pub assume_specification [FieldInfo::bit_width](f: &FieldInfo) -> (r: u32) ensures r == f.bit_range.width;
pub assume_specification [EnumeratedValues::usage](e: &EnumeratedValues) -> (r: Option<Usage>) ensures r == own_usage(*e);
pub trait AccX { fn or_v(self, o: Self) -> Self; fn unwrap_or_default_v(self) -> Access; }
impl AccX for Option<Access> {
    fn or_v(self, o: Option<Access>) -> (r: Option<Access>) ensures r == (if self is Some { self } else { o }) { match self { Some(a) => Some(a), None => o } }
    #[verifier::external_body] fn unwrap_or_default_v(self) -> (r: Access) ensures r == (match self { Some(a) => a, None => Access::ReadWrite }) { self.unwrap_or_default() }
}
#[verifier::external_body] pub proof fn axiom_derive_eq() ensures <EnumAutoDerive as vstd::std_specs::cmp::PartialEqSpec<EnumAutoDerive>>::obeys_eq_spec(), forall|a: EnumAutoDerive, b: EnumAutoDerive| #[trigger] <EnumAutoDerive as vstd::std_specs::cmp::PartialEqSpec<EnumAutoDerive>>::eq_spec(&a, &b) == (a == b) {}
impl IntoX for String { #[verifier::external_body] fn into_v(&self) -> (r: String) ensures r@ == self@ { self.into() } }
// sets, as far as the number of different elements matters
#[verifier::external_body] pub struct NumSet { s: std::collections::HashSet<u32> }
impl View for NumSet { type V = Set<u32>; uninterp spec fn view(&self) -> Set<u32>; }
impl NumSet {
    #[verifier::external_body] pub fn new() -> (r: NumSet) ensures r@ == Set::<u32>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: u32) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { self.s.insert(k) }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r <= 1 <==> forall|a: u32, b: u32| self@.contains(a) && self@.contains(b) ==> a == b { self.s.len() }
}
// iterators of references
pub trait IterX<T> { fn iter_v<'a>(&'a self) -> Vec<&'a T>; }
impl<T> IterX<T> for Vec<T> { #[verifier::external_body] fn iter_v<'a>(&'a self) -> (r: Vec<&'a T>) ensures derefs(r@) == self@, r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i] { self.iter().collect() } }
// what a closure answers for every element
pub open spec fn told<A, R, F: Fn(A) -> R>(f: F, s: Seq<A>, p: Seq<R>) -> bool { p.len() == s.len() && forall|i: int| #![trigger p[i]] 0 <= i < s.len() ==> f.ensures((s[i],), p[i]) }
pub open spec fn told_r<'a, T, R, F: Fn(&&'a T) -> R>(f: F, s: Seq<&'a T>, p: Seq<R>) -> bool { p.len() == s.len() && forall|i: int| #![trigger p[i]] 0 <= i < s.len() ==> f.ensures((&s[i],), p[i]) }
pub open spec fn flat<T>(p: Seq<Vec<T>>) -> Seq<T> decreases p.len() { if p.len() == 0 { Seq::empty() } else { flat(p.drop_last()) + p.last()@ } }
pub open spec fn keep<T>(s: Seq<T>, b: Seq<bool>) -> Seq<T> decreases s.len() { if s.len() == 0 || b.len() != s.len() { Seq::empty() } else if b.last() { keep(s.drop_last(), b.drop_last()).push(s.last()) } else { keep(s.drop_last(), b.drop_last()) } }
pub open spec fn least(k: Seq<u32>, j: int) -> bool { 0 <= j < k.len() && (forall|i: int| 0 <= i < k.len() ==> k[j] <= #[trigger] k[i]) && forall|i: int| 0 <= i < j ==> k[j] < #[trigger] k[i] }
pub trait RefIterX<'a, T: 'a>: Sized {
    spec fn items(&self) -> Seq<&'a T>;
    fn flat_map_v<U, F: Fn(&'a T) -> Vec<&'a U>>(self, f: F) -> (r: Vec<&'a U>) requires forall|x: &'a T| f.requires((x,)) ensures exists|p: Seq<Vec<&'a U>>| #[trigger] told(f, self.items(), p) && r@ == flat(p);
    fn filter_v<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Vec<&'a T>) requires forall|x: &&'a T| f.requires((x,)) ensures exists|b: Seq<bool>| #[trigger] told_r(f, self.items(), b) && r@ == keep(self.items(), b);
    fn any_v<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool) requires forall|x: &'a T| f.requires((x,)) ensures exists|b: Seq<bool>| #[trigger] told(f, self.items(), b) && r == b.contains(true);
    fn enumerate_v(self) -> (r: Vec<(usize, &'a T)>) ensures r@.len() == self.items().len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i].0 == i && r@[i].1 == self.items()[i];
    fn min_by_key_v<F: Fn(&&'a T) -> u32>(self, f: F) -> (r: Option<&'a T>) requires forall|x: &&'a T| f.requires((x,)) ensures r is None <==> self.items().len() == 0, r is Some ==> exists|k: Seq<u32>, j: int| #[trigger] told_r(f, self.items(), k) && #[trigger] least(k, j) && 0 <= j < self.items().len() && r.unwrap() == self.items()[j];
    fn map_v<F: Fn(&'a T) -> usize>(self, f: F) -> (r: Vec<usize>) requires forall|x: &'a T| f.requires((x,)) ensures r@.len() == self.items().len(), told(f, self.items(), r@);
    fn next_v(&mut self) -> (r: Option<&'a T>) ensures match r { None => old(self).items().len() == 0 && final(self).items() == old(self).items(), Some(x) => old(self).items().len() > 0 && x == old(self).items()[0] && final(self).items() == old(self).items().skip(1) };
}
impl<'a, T: 'a> RefIterX<'a, T> for Vec<&'a T> {
    open spec fn items(&self) -> Seq<&'a T> { self@ }
    #[verifier::external_body] fn flat_map_v<U, F: Fn(&'a T) -> Vec<&'a U>>(self, f: F) -> (r: Vec<&'a U>) { unimplemented!() }
    #[verifier::external_body] fn filter_v<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Vec<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn any_v<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn enumerate_v(self) -> (r: Vec<(usize, &'a T)>) { unimplemented!() }
    #[verifier::external_body] fn min_by_key_v<F: Fn(&&'a T) -> u32>(self, f: F) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn map_v<F: Fn(&'a T) -> usize>(self, f: F) -> (r: Vec<usize>) { unimplemented!() }
    #[verifier::external_body] fn next_v(&mut self) -> (r: Option<&'a T>) { unimplemented!() }
}
pub trait FirstX<'a, T> { fn next_v(self) -> Option<&'a mut T>; }
impl<'a, T> FirstX<'a, T> for Vec<&'a mut T> {
    // the references not handed out change nothing
    #[verifier::external_body] fn next_v(self) -> (r: Option<&'a mut T>)
        ensures match r { None => self@.len() == 0, Some(x) => self@.len() > 0 && x == self@[0] }, forall|i: int| #![trigger self@[i]] 1 <= i < self@.len() ==> *final(self@[i]) == *self@[i]
    { self.into_iter().next() }
}
pub open spec fn least_us(k: Seq<usize>, m: usize) -> bool { exists|j: int| 0 <= j < k.len() && #[trigger] k[j] == m && forall|i: int| 0 <= i < k.len() ==> m <= #[trigger] k[i] }
pub trait LeastX { fn min_v(self) -> Option<usize>; }
impl LeastX for Vec<usize> { #[verifier::external_body] fn min_v(self) -> (r: Option<usize>) ensures r is None <==> self@.len() == 0, r is Some ==> least_us(self@, r.unwrap()) { self.into_iter().min() } }


// ---- SPECIFICATION ----
pub open spec fn list_refs<T>(r: Seq<&T>, s: Seq<T>) -> bool { r.len() == s.len() && forall|i: int| #![trigger r[i]] 0 <= i < s.len() ==> *r[i] == s[i] }
pub open spec fn own_usage(e: EnumeratedValues) -> Option<Usage> { if e.derived_from is Some { None } else { match e.usage { Some(u) => Some(u), None => Some(Usage::ReadWrite) } } }
pub open spec fn called(d: Seq<char>) -> spec_fn(EnumeratedValues) -> bool { |e: EnumeratedValues| e.name is Some && e.name.unwrap()@ == d }
// every list of every field
pub open spec fn all_lists(s: Seq<Field>) -> Seq<EnumeratedValues> decreases s.len() { if s.len() == 0 { Seq::empty() } else { all_lists(s.drop_last()) + ma(s.last()).enumerated_values@ } }
pub open spec fn fld_access(f: Field, ra: Option<Access>) -> Access { match ma(f).access { Some(a) => a, None => match ra { Some(a) => a, None => Access::ReadWrite } } }
pub open spec fn usage_for(a: Access, u: Option<Usage>) -> Option<Usage> {
    if can_both(a) { Some(match u { Some(x) => x, None => Usage::ReadWrite }) }
    else if a is ReadOnly { if u is None || u == Some(Usage::Read) { Some(Usage::Read) } else { None } }
    else { if u is None || u == Some(Usage::Write) { Some(Usage::Write) } else { None } }
}
pub open spec fn shown_usage(a: Access, u: Usage) -> Option<Usage> { if (can_both(a) && u is ReadWrite) || (a is ReadOnly && u is Read) || (can_write_only(a) && u is Write) { None } else { Some(u) } }
// the list e is placed on the field x
pub open spec fn put(x: Field, y: Field, e: EnumeratedValues, u: Usage, rep: bool, a: Access) -> bool {
    ma_shape(y, x) && fld_only_enumerated_values(ma(y), ma(x)) && may_set(ma(x).enumerated_values@, u, rep, a) && set_evs(ma(x).enumerated_values@, e, u, a, ma(y).enumerated_values@)
}
pub open spec fn put_derived(d: Seq<char>, ra: Option<Access>, u: Option<Usage>, orig: Usage, e: EnumeratedValues) -> spec_fn(Field, Field) -> bool {
    |x: Field, y: Field| usage_for(fld_access(x, ra), u) == Some(orig) && !any_sel(ma(x).enumerated_values@, called(d)) && put(x, y, e, orig, true, fld_access(x, ra))
}
pub open spec fn only_list(s: Seq<Field>, d: Seq<char>, o: EnumeratedValues) -> bool { all_lists(s).filter(called(d)) == seq![o] }
// a reference to the list of that name, which is there once and holds values
pub open spec fn derived_ok(s: Seq<Field>, t: Seq<Field>, p: spec_fn(Field) -> bool, d: Seq<char>, ra: Option<Access>, u: Option<Usage>) -> bool {
    exists|o: EnumeratedValues, e: EnumeratedValues| #[trigger] only_list(s, d, o) && own_usage(o) is Some && #[trigger] evs_derived(e, d) && upd_sel(s, t, p, put_derived(d, ra, u, own_usage(o).unwrap(), e))
}
pub open spec fn off(f: Field) -> u32 { ma(f).bit_range.offset }
pub open spec fn wid(f: Field) -> u32 { ma(f).bit_range.width }
// the selected field with the lowest offset (the first one of several)
pub open spec fn carrier(s: Seq<Field>, p: spec_fn(Field) -> bool, c: int) -> bool {
    0 <= c < s.len() && p(s[c]) && (forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> off(s[c]) <= off(s[i])) && forall|i: int| 0 <= i < c && p(#[trigger] s[i]) ==> off(s[c]) < off(s[i])
}
pub open spec fn same_width(s: Seq<Field>, p: spec_fn(Field) -> bool) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && p(#[trigger] s[i]) && p(#[trigger] s[j]) ==> wid(s[i]) == wid(s[j]) }
pub open spec fn ev_name_of(n: Seq<char>, u: Option<Usage>) -> Seq<char> { n + (match u { Some(Usage::Read) => seq!['R'], Some(Usage::Write) => seq!['W'], _ => Seq::empty() }) }
pub open spec fn list_name(h: Hash, n: Seq<char>, u: Option<Usage>) -> Seq<char> { match yget(h, "_name"@) { Some(y) => kstr(y), None => ev_name_of(replaced(n, "%s"@, ""@), u) } }
// the described list
pub open spec fn described(h: Hash, n: Option<Seq<char>>, us: Option<Usage>, e: EnumeratedValues) -> bool {
    (match n { Some(x) => if x.len() == 0 { e.name is None } else { e.name is Some && e.name.unwrap()@ == x }, None => e.name is None }) && e.usage == us && e.derived_from is None && ev_list(h, e.values@)
}
pub open spec fn put_described(h: Hash, n: Option<Seq<char>>, rep: bool, ra: Option<Access>, u: Option<Usage>, x: Field, y: Field) -> bool {
    let a = fld_access(x, ra); usage_for(a, u) is Some && exists|e: EnumeratedValues| #[trigger] described(h, n, shown_usage(a, usage_for(a, u).unwrap()), e) && put(x, y, e, usage_for(a, u).unwrap(), rep, a)
}
pub open spec fn put_reference(n: Seq<char>, ra: Option<Access>, u: Option<Usage>, x: Field, y: Field) -> bool {
    let a = fld_access(x, ra); usage_for(a, u) is Some && exists|e: EnumeratedValues| #[trigger] evs_derived(e, n) && put(x, y, e, usage_for(a, u).unwrap(), true, a)
}
// the field refers to the carrier instead of having values of its own
pub open spec fn put_field(n: Seq<char>, x: Field, y: Field) -> bool { ma_shape(y, x) && ma(y).derived_from is Some && ma(y).derived_from.unwrap()@ == n && ma(y).enumerated_values@.len() == 0 && ma(y).name == ma(x).name && ma(y).bit_range == ma(x).bit_range && ma(y).access == ma(x).access && ma(y).description == ma(x).description }
// `c`: the carrier; what becomes of a selected field
pub open spec fn covered(h: Hash, m: EnumAutoDerive, c: Field, rep: bool, ra: Option<Access>, u: Option<Usage>) -> spec_fn(Field, Field) -> bool {
    |x: Field, y: Field| {
        let n = list_name(h, c.nm(), u);
        &&& usage_for(fld_access(x, ra), u) is Some
        &&& if off(x) == off(c) { put_described(h, Some(n), rep, ra, u, x, y) }
            else if m is None { put_described(h, None, rep, ra, u, x, y) }
            else if m is Field { put_field(c.nm(), x, y) }
            else { put_reference(n, ra, u, x, y) }
    }
}
pub open spec fn described_ok(h: Hash, m: EnumAutoDerive, s: Seq<Field>, t: Seq<Field>, p: spec_fn(Field) -> bool, rep: bool, ra: Option<Access>, u: Option<Usage>) -> bool {
    &&& same_width(s, p)
    &&& exists|c: int, k: int, w: Seq<Field>| #[trigger] carrier(s, p, c) && #[trigger] first_sel(s, p, k) && #[trigger] upd_sel(s, w, p, covered(h, m, s[c], rep, ra, u))
        // and the carrier comes before the others
        && t =~= w.remove(c).insert(k, w[c])
}
pub open spec fn first_sel<T>(s: Seq<T>, p: spec_fn(T) -> bool, k: int) -> bool { 0 <= k < s.len() && p(s[k]) && forall|i: int| 0 <= i < k ==> !p(#[trigger] s[i]) }
// `_replace_enum` asks for replacement
pub open spec fn real_mod(h: Hash) -> Hash { match yget(h, "_replace_enum"@) { Some(Yaml::Hash(x)) => x, _ => h } }
// ---- PROOF ----
pub proof fn lemma_lists(v: Seq<&Field>, p: Seq<Vec<&EnumeratedValues>>)
    requires v.len() == p.len(), forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> list_refs(p[i]@, ma(*v[i]).enumerated_values@)
    ensures derefs(flat(p)) =~= all_lists(derefs(v)) decreases p.len()
{
    if p.len() > 0 {
        assert forall|i: int| #![trigger p.drop_last()[i]] 0 <= i < p.len() - 1 implies list_refs(p.drop_last()[i]@, ma(*v.drop_last()[i]).enumerated_values@) by { assert(p.drop_last()[i] == p[i]); }
        lemma_lists(v.drop_last(), p.drop_last());
        assert(derefs(v).drop_last() =~= derefs(v.drop_last()));
        let l = p.len() - 1; assert(list_refs(p[l]@, ma(*v[l]).enumerated_values@));
        assert(derefs(p.last()@) =~= ma(*v.last()).enumerated_values@);
        assert(derefs(flat(p)) =~= derefs(flat(p.drop_last())) + derefs(p.last()@));
    }
}
pub broadcast proof fn lemma_flat<'a, F: Fn(&'a Field) -> Vec<&'a EnumeratedValues>>(f: F, v: Seq<&'a Field>, p: Seq<Vec<&'a EnumeratedValues>>)
    requires #[trigger] told(f, v, p), forall|x: &'a Field, r: Vec<&'a EnumeratedValues>| f.ensures((x,), r) ==> list_refs(r@, ma(*x).enumerated_values@)
    ensures derefs(flat(p)) == all_lists(derefs(v))
{ lemma_lists(v, p); }
pub proof fn lemma_keep_(w: Seq<&EnumeratedValues>, b: Seq<bool>, q: spec_fn(EnumeratedValues) -> bool)
    requires w.len() == b.len(), forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> b[i] == q(*w[i])
    ensures derefs(keep(w, b)) =~= derefs(w).filter(q) decreases w.len()
{
    reveal(Seq::filter);
    if w.len() > 0 {
        let l = w.len() - 1; assert(b[l] == q(*w[l]));
        assert forall|i: int| #![trigger b.drop_last()[i]] 0 <= i < b.len() - 1 implies b.drop_last()[i] == q(*w.drop_last()[i]) by { assert(b.drop_last()[i] == b[i]); }
        lemma_keep_(w.drop_last(), b.drop_last(), q);
        assert(derefs(w).drop_last() =~= derefs(w.drop_last()));
    }
}
pub open spec fn asks_r<'a, F: Fn(&&'a EnumeratedValues) -> bool>(f: F, d: Seq<char>) -> bool { forall|x: &&'a EnumeratedValues, b: bool| f.ensures((x,), b) ==> b == called(d)(**x) }
pub open spec fn asks<'a, F: Fn(&'a EnumeratedValues) -> bool>(f: F, d: Seq<char>) -> bool { forall|x: &'a EnumeratedValues, b: bool| f.ensures((x,), b) ==> b == called(d)(*x) }
pub broadcast proof fn lemma_kept<'a, F: Fn(&&'a EnumeratedValues) -> bool>(f: F, w: Seq<&'a EnumeratedValues>, b: Seq<bool>)
    requires #[trigger] told_r(f, w, b)
    ensures forall|d: Seq<char>| #![trigger called(d)] asks_r(f, d) ==> derefs(keep(w, b)) == derefs(w).filter(called(d))
{ assert forall|d: Seq<char>| #![trigger called(d)] asks_r(f, d) implies derefs(keep(w, b)) == derefs(w).filter(called(d)) by { lemma_keep_(w, b, called(d)); } }
pub broadcast proof fn lemma_any<'a, F: Fn(&'a EnumeratedValues) -> bool>(f: F, w: Seq<&'a EnumeratedValues>, b: Seq<bool>)
    requires #[trigger] told(f, w, b)
    ensures forall|d: Seq<char>| #![trigger called(d)] asks(f, d) ==> (b.contains(true) <==> any_sel(derefs(w), called(d)))
{
    assert forall|d: Seq<char>| #![trigger called(d)] asks(f, d) implies (b.contains(true) <==> any_sel(derefs(w), called(d))) by {
        if b.contains(true) { let i = choose|i: int| 0 <= i < b.len() && b[i] == true; assert(called(d)(derefs(w)[i])); }
        if any_sel(derefs(w), called(d)) { let i = choose|i: int| 0 <= i < w.len() && called(d)(#[trigger] derefs(w)[i]); assert(b[i]); }
    }
}
pub open spec fn least_off(s: Seq<(u32, String, usize)>, j: int) -> bool { 0 <= j < s.len() && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[j].0 <= s[i].0) && forall|i: int| #![trigger s[i]] 0 <= i < j ==> s[j].0 < s[i].0 }
pub broadcast proof fn lemma_least<'a, F: Fn(&&'a (u32, String, usize)) -> u32>(f: F, w: Seq<&'a (u32, String, usize)>, k: Seq<u32>, j: int)
    requires #[trigger] told_r(f, w, k), #[trigger] least(k, j), forall|x: &&'a (u32, String, usize), y: u32| f.ensures((x,), y) ==> y == (**x).0
    ensures least_off(derefs(w), j)
{ assert forall|i: int| 0 <= i < w.len() implies #[trigger] k[i] == (*w[i]).0 by {} 
  assert forall|i: int| #![trigger derefs(w)[i]] 0 <= i < w.len() implies derefs(w)[j].0 <= derefs(w)[i].0 by { assert(k[j] <= k[i]); }
  assert forall|i: int| #![trigger derefs(w)[i]] 0 <= i < j implies derefs(w)[j].0 < derefs(w)[i].0 by { assert(k[j] < k[i]); } }
pub open spec fn least_pos(o: Seq<(u32, String, usize)>, m: usize) -> bool { exists|j: int| 0 <= j < o.len() && m == (#[trigger] o[j]).2 && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> m <= o[i].2 }
pub broadcast proof fn lemma_pos<'a, F: Fn(&'a (u32, String, usize)) -> usize>(f: F, w: Seq<&'a (u32, String, usize)>, p: Seq<usize>, m: usize)
    requires #[trigger] told(f, w, p), #[trigger] least_us(p, m), forall|x: &'a (u32, String, usize), y: usize| f.ensures((x,), y) ==> y == (*x).2
    ensures least_pos(derefs(w), m)
{
    let o = derefs(w);
    let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == m && forall|i: int| 0 <= i < p.len() ==> m <= #[trigger] p[i];
    assert(p[j] == (*w[j]).2 && o[j].2 == m);
    assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() implies m <= o[i].2 by { assert(p[i] == (*w[i]).2); assert(m <= p[i]); }
}
pub proof fn lemma_first_(s: Seq<Field>, p: spec_fn(Field) -> bool, o: Seq<(u32, String, usize)>, m: usize)
    requires offs(s, p, s.len() as int, o), least_pos(o, m)
    ensures first_sel(s, p, m as int), 0 <= m < s.len()
{ let j = choose|j: int| 0 <= j < o.len() && m == (#[trigger] o[j]).2 && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> m <= o[i].2; lemma_first(s, p, o, j); }
// what the first n fields put into `offsets`
pub open spec fn offs(s: Seq<Field>, p: spec_fn(Field) -> bool, n: int, o: Seq<(u32, String, usize)>) -> bool {
    &&& forall|j: int| #![trigger o[j]] 0 <= j < o.len() ==> o[j].2 < n && p(s[o[j].2 as int]) && o[j].0 == off(s[o[j].2 as int]) && o[j].1@ == s[o[j].2 as int].nm()
    &&& forall|i: int, j: int| #![trigger o[i], o[j]] 0 <= i < j < o.len() ==> o[i].2 < o[j].2
    &&& forall|i: int| 0 <= i < n && p(#[trigger] s[i]) ==> has_pos(o, i)
}
pub open spec fn has_pos(o: Seq<(u32, String, usize)>, i: int) -> bool { exists|j: int| 0 <= j < o.len() && (#[trigger] o[j]).2 == i }
pub open spec fn all_wid(s: Seq<Field>, p: spec_fn(Field) -> bool, n: int, w: Set<u32>) -> bool { forall|i: int| 0 <= i < n && p(#[trigger] s[i]) ==> w.contains(wid(s[i])) }
pub proof fn lemma_offs(s: Seq<Field>, p: spec_fn(Field) -> bool, n: int, o: Seq<(u32, String, usize)>, q: Seq<(u32, String, usize)>)
    requires offs(s, p, n, o), 0 <= n < s.len(), if p(s[n]) { q.len() == o.len() + 1 && q == o.push(q.last()) && q.last().0 == off(s[n]) && q.last().1@ == s[n].nm() && q.last().2 == n } else { q == o }
    ensures offs(s, p, n + 1, q)
{
    assert forall|i: int| 0 <= i < n + 1 && p(#[trigger] s[i]) implies has_pos(q, i) by {
        if i == n { assert(q[q.len() - 1].2 == i); } else { assert(has_pos(o, i)); let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).2 == i; assert(q[j].2 == i); }
    }
}
// what the references say about the elements, without their positions
pub broadcast proof fn lemma_same<T>(s: Seq<T>, t: Seq<T>, v: Seq<&mut T>, p: spec_fn(T) -> bool)
    requires #[trigger] refs(s, t, v, p)
    ensures (forall|j: int| 0 <= j < v.len() ==> *final(#[trigger] v[j]) == *v[j]) ==> t =~= s
{ if forall|j: int| 0 <= j < v.len() ==> *final(#[trigger] v[j]) == *v[j] { assert forall|i: int| 0 <= i < s.len() implies t[i] == s[i] by { let c = cnt(s, p, i); assert(p(s[i]) ==> *final(v[c]) == *v[c]); } } }
pub broadcast proof fn lemma_upd<T>(s: Seq<T>, t: Seq<T>, v: Seq<&mut T>, p: spec_fn(T) -> bool, rel: spec_fn(T, T) -> bool)
    requires #[trigger] refs(s, t, v, p), forall|j: int| 0 <= j < v.len() ==> rel(*v[j], *final(#[trigger] v[j]))
    ensures #[trigger] upd_sel(s, t, p, rel)
{ assert forall|i: int| #![trigger t[i]] 0 <= i < s.len() implies (if p(s[i]) { rel(s[i], t[i]) } else { t[i] == s[i] }) by { let c = cnt(s, p, i); assert(p(s[i]) ==> rel(*v[c], *final(v[c]))); } }
pub proof fn lemma_upd_len<T>(s: Seq<T>, t: Seq<T>, p: spec_fn(T) -> bool, rel: spec_fn(T, T) -> bool) requires upd_sel(s, t, p, rel) ensures t.len() == s.len() {}
pub proof fn lemma_wid0(s: Seq<Field>, p: spec_fn(Field) -> bool, w: Set<u32>) ensures all_wid(s, p, 0, w) {}
pub proof fn lemma_wid(s: Seq<Field>, p: spec_fn(Field) -> bool, n: int, w: Set<u32>, v: Set<u32>)
    requires all_wid(s, p, n, w), 0 <= n < s.len(), v == if p(s[n]) { w.insert(wid(s[n])) } else { w }
    ensures all_wid(s, p, n + 1, v)
{ }
pub proof fn lemma_same_width(s: Seq<Field>, p: spec_fn(Field) -> bool, w: Set<u32>)
    requires all_wid(s, p, s.len() as int, w), forall|a: u32, b: u32| w.contains(a) && w.contains(b) ==> a == b
    ensures same_width(s, p)
{ }
pub proof fn lemma_offs0(s: Seq<Field>, p: spec_fn(Field) -> bool, o: Seq<(u32, String, usize)>) requires o.len() == 0 ensures offs(s, p, 0, o) {}
pub proof fn lemma_offs_any(s: Seq<Field>, p: spec_fn(Field) -> bool, o: Seq<(u32, String, usize)>) requires offs(s, p, s.len() as int, o) ensures o.len() == 0 <==> !any_sel(s, p)
{ if any_sel(s, p) { let i = choose|i: int| 0 <= i < s.len() && p(#[trigger] s[i]); assert(has_pos(o, i)); } else if o.len() > 0 { assert(p(s[o[0].2 as int])); } }
pub proof fn lemma_carrier(s: Seq<Field>, p: spec_fn(Field) -> bool, o: Seq<(u32, String, usize)>, j: int)
    requires offs(s, p, s.len() as int, o), least_off(o, j)
    ensures carrier(s, p, o[j].2 as int), 0 <= o[j].2 < s.len(), p(s[o[j].2 as int]), o[j].1@ == s[o[j].2 as int].nm(), o[j].0 == off(s[o[j].2 as int])
{
    let c = o[j].2 as int;
    assert forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) implies off(s[c]) <= off(s[i]) by { assert(has_pos(o, i)); let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).2 == i; }
    assert forall|i: int| 0 <= i < c && p(#[trigger] s[i]) implies off(s[c]) < off(s[i]) by { assert(has_pos(o, i)); let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).2 == i; if k >= j { if k > j { assert(o[j].2 < o[k].2); } } }
}
pub proof fn lemma_first(s: Seq<Field>, p: spec_fn(Field) -> bool, o: Seq<(u32, String, usize)>, j: int)
    requires offs(s, p, s.len() as int, o), 0 <= j < o.len(), forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[j].2 <= o[i].2
    ensures first_sel(s, p, o[j].2 as int), 0 <= o[j].2 < s.len()
{ assert forall|i: int| 0 <= i < o[j].2 implies !p(#[trigger] s[i]) by { if p(s[i]) { assert(has_pos(o, i)); let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).2 == i; } } }
//@fn src/patch/register.rs | RegisterExt for Register | process_field_enum
//@self Register
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(250)]
//@sub HashSet::new() =>> NumSet::new()
//@spec
    ensures ({
        let s = reg_fields(*old(self_)); let t = reg_fields(*final(self_)); let p = named::<Field>(sel(fspec@)); let h = real_mod(*fmod); let ra = ma(*old(self_)).properties.access;
        &&& reg_fields_frame(*final(self_), *old(self_))
        &&& !any_sel(s, p) ==> t =~= s && (r is Ok ==> sel_opt(fspec@))
        &&& r is Ok && any_sel(s, p) ==> match yget(h, "_derivedFrom"@) {
            Some(y) => derived_ok(s, t, p, kstr(y), ra, usage),
            None => described_ok(h, config.enum_derive, s, t, p, yget(*fmod, "_replace_enum"@) is Some, ra, usage) }
    }),
//@start
    hide(told); hide(told_r); hide(least); hide(least_us); hide(least_pos); hide(refs); hide(upd_sel); hide(same_width); hide(all_wid); hide(set_evs); hide(may_set); hide(ev_list); hide(fld_only_enumerated_values); hide(all_lists); hide(carrier); hide(first_sel); hide(offs); hide(least_off); hide(keep); hide(flat); 
    broadcast use {lemma_same, lemma_upd, lemma_none, lemma_flat, lemma_kept, lemma_any, lemma_least, lemma_pos};
    proof { axiom_usage_eq(); axiom_derive_eq(); axiom_string_eq(); }
    let ghost s0_ = reg_fields(*self_); let ghost spec_ = fspec@; let ghost p_ = named::<Field>(sel(spec_)); let ghost f0_ = *fmod; let ghost ra_ = ma(*self_).properties.access;
//@closure 1 |$1: &Field| -> (r: Vec<&EnumeratedValues>)
    ensures list_refs(r@, ma(*$1).enumerated_values@)
//@closure 2 |$1: &&EnumeratedValues| -> (b: bool)
    ensures b == called(d@)(**$1)
//@closure 5 |$1: &EnumeratedValues| -> (b: bool)
    ensures b == called(d@)(*$1)
//@closure 6 |$1: &&(u32, String, usize)| -> (k: u32)
    ensures k == (**$1).0
//@closure 7 |$1: &(u32, String, usize)| -> (k: usize)
    ensures k == (*$1).2
//@before "let mut derived_enums"
    proof { assert(reg_fields(*self_) =~= s0_); }
//@after "let mut derived_enums"
    proof { assert(called(d@) == called(d@)); assert(exists|w: Seq<&EnumeratedValues>| #[trigger] derefs(w) == all_lists(s0_));  assert(derefs(derived_enums@) == all_lists(s0_).filter(called(d@))); }
    let ghost w_ = derived_enums@;
//@after "let evs = make_derived_enumerated_values(d)?;"
    let ghost o_ = *w_[0]; let ghost e_ = evs; let ghost d_ = d@;
    proof { assert(all_lists(s0_).filter(called(d@)) =~= seq![o_]); assert(only_list(s0_, d@, o_)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> put_derived(d_, ra_, usage, orig_usage, e_)(*g1_[j], *final(#[trigger] g1_[j])),
//@loop 2 it2 hoist
    invariant it2.seq() == g2_, offs(s0_, p_, it2.index() as int, offsets@), all_wid(s0_, p_, it2.index() as int, width_vals@),
//@loop-start 2
    let ghost i_ = it2.index() as int; let ghost o_ = offsets@; let ghost wv_ = width_vals@;
    proof { assert(g2_[i_].0 == i_ && *g2_[i_].1 == s0_[i_]); }
//@loop-end 2
    proof { lemma_offs(s0_, p_, i_, o_, offsets@); lemma_wid(s0_, p_, i_, wv_, width_vals@); }
//@after "let min_pos ="
    let ghost c_ = *min_offset_pos as int; let ghost k_ = min_pos as int;
    proof {
        assert(exists|j: int| least_off(offsets@, j) && *min_offset_pos == offsets@[j].2 && *min_offset == offsets@[j].0 && *fname == offsets@[j].1);
        let jc = choose|j: int| least_off(offsets@, j) && *min_offset_pos == offsets@[j].2 && *min_offset == offsets@[j].0 && *fname == offsets@[j].1;
        lemma_carrier(s0_, p_, offsets@, jc); 
        lemma_first_(s0_, p_, offsets@, min_pos);
        assert(carrier(s0_, p_, c_)); assert(first_sel(s0_, p_, k_)); lemma_same_width(s0_, p_, width_vals@); assert(same_width(s0_, p_));
    }
//@before-loop 2
    proof { lemma_offs0(s0_, p_, offsets@); lemma_wid0(s0_, p_, width_vals@); }
//@after-loop 2
    proof { lemma_offs_any(s0_, p_, offsets@); }
//@before-loop 3
    let ghost h_ = *fmod; let ghost rep_ = replace_if_exists; let ghost n_ = list_name(h_, s0_[c_].nm(), usage);
    proof { assert(name@ == n_); }
//@loop 3 it3 hoist
    invariant it3.seq() == g3_, forall|j: int| 0 <= j < it3.index() ==> covered(h_, config.enum_derive, s0_[c_], rep_, ra_, usage)(*g3_[j], *final(#[trigger] g3_[j])),
//@loop-start 3
    let ghost x_ = *ftag;
//@after "let checked_usage = check_usage(access, usage)"
    proof { assert(usage_for(access, usage) == Some(checked_usage)); }
//@after "let evs = evs.build(VAL_LVL)?;"
    let ghost ev_ = evs;
    proof { assert(described(h_, if off(x_) == off(s0_[c_]) { Some(n_) } else { None }, shown_usage(access, checked_usage), ev_)); }
//@after "set_enum(ftag, evs, checked_usage, replace_if_exists, access)?;"
    proof { assert(put(x_, *ftag, ev_, checked_usage, rep_, access)); }
//@loop-end 3
    proof { assert(covered(h_, config.enum_derive, s0_[c_], rep_, ra_, usage)(x_, *ftag)); }
//@before "let reg_access"
    proof { assert(*fmod == real_mod(f0_)); assert(replace_if_exists == (yget(f0_, "_replace_enum"@) is Some)); }
//@after-loop 1
    proof { assert(upd_sel(s0_, reg_fields(*self_), p_, put_derived(d_, ra_, usage, orig_usage, e_))); assert(derived_ok(s0_, reg_fields(*self_), p_, d_, ra_, usage)); }
//@after-loop 3
    let ghost m_ = reg_fields(*self_);
    proof { assert(upd_sel(s0_, m_, p_, covered(h_, config.enum_derive, s0_[c_], rep_, ra_, usage))); lemma_upd_len(s0_, m_, p_, covered(h_, config.enum_derive, s0_[c_], rep_, ra_, usage)); assert(m_.len() == s0_.len()); assert(ma(*self_).fields is Some); }
//@after "if let Some(fields) = self.fields.as_mut()"
    proof { assert(reg_fields(*self_) =~= m_.remove(c_).insert(k_, m_[c_])); assert(described_ok(h_, config.enum_derive, s0_, reg_fields(*self_), p_, rep_, ra_, usage)); }
//@end
}
fn main(){}
