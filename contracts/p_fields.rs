// Wrappers (std, svd-rs) for the structure edits of a register.
//@wrap enumerate iter_mut collect contains extend min retain is_empty
verus! {
//@type src/patch/mod.rs | VAL_LVL
pub open spec fn hit(names: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < names.len() && (#[trigger] names[i])@ == n }
// TRUSTED wrappers (std)
pub trait RefsX<'a, T> { fn enumerate_v(self) -> Vec<(usize, &'a mut T)>; }
impl<'a, T> RefsX<'a, T> for Vec<&'a mut T> {
    #[verifier::external_body]
    fn enumerate_v(self) -> (r: Vec<(usize, &'a mut T)>)
        ensures r@.len() == self@.len(), r@.len() <= usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i].0 == i && r@[i].1 == self@[i]
    { self.into_iter().enumerate().collect() }
}
pub trait IterMutX<T> { fn iter_mut_v<'a>(&'a mut self) -> Vec<&'a mut T>; fn extend_v(&mut self, o: Vec<T>); fn collect_v(self) -> Vec<T>; }
impl<T> IterMutX<T> for Vec<T> {
    #[verifier::external_body]
    fn iter_mut_v<'a>(&'a mut self) -> (r: Vec<&'a mut T>)
        ensures r@.len() == old(self)@.len(), final(self)@.len() == old(self)@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger final(self)@[i]] 0 <= i < r@.len() ==> *r@[i] == old(self)@[i] && *final(r@[i]) == final(self)@[i]
    { self.iter_mut().collect() }
    #[verifier::external_body]
    fn extend_v(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { self.extend(o) }
    fn collect_v(self) -> (r: Vec<T>) ensures r == self { self }
}
pub trait NamesX { fn contains_v(&self, x: &String) -> bool; }
impl NamesX for Vec<String> {
    #[verifier::external_body]
    fn contains_v(&self, x: &String) -> (r: bool) ensures r == hit(self@, x@) { self.contains(x) }
}
pub trait EmptyX { fn is_empty_v(&self) -> bool; }
impl<T> EmptyX for Vec<T> { fn is_empty_v(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.len() == 0 } }
pub trait MinX { fn min_v(self, o: Self) -> Self where Self: Sized; }
impl MinX for u32 { fn min_v(self, o: u32) -> (r: u32) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } } }
impl MinX for usize { fn min_v(self, o: usize) -> (r: usize) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } } }
// the names of the elements an iterator yields
#[verifier::external_body]
pub fn names_raw<'a>(v: Vec<&'a mut Field>) -> (r: Vec<String>)
    ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i]@ == (*v@[i]).nm(),
        forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> *final(v@[i]) == *v@[i],
{ v.into_iter().map(|f| f.name.to_string()).collect() }
pub open spec fn names_of(s: Seq<Field>, spec: Seq<char>, names: Seq<String>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (hit(names, s[i].nm()) <==> matches(s[i].nm(), spec))
    &&& forall|n: Seq<char>| #[trigger] hit(names, n) ==> any_sel(s, |x: Field| x.nm() == n && matches(x.nm(), spec))
    &&& (names.len() > 0 <==> any_sel(s, named::<Field>(spec)))
}
pub trait FieldNames { fn names_v(self) -> Vec<String>; }
impl<'a> FieldNames for Vec<&'a mut Field> {
    fn names_v(self) -> (r: Vec<String>)
        ensures forall|s: Seq<Field>, t: Seq<Field>, spec: Seq<char>| #[trigger] refs(s, t, self@, named::<Field>(spec)) ==> t == s && names_of(s, spec, r@)
    {
        let ghost v = self@;
        let r = names_raw(self);
        proof {
            assert forall|s: Seq<Field>, t: Seq<Field>, spec: Seq<char>| #[trigger] refs(s, t, v, named::<Field>(spec)) implies t == s && names_of(s, spec, r@) by {
                lemma_refs_same(s, t, v, named::<Field>(spec)); lemma_names(s, t, v, spec, r@);
            }
        }
        r
    }
}
pub proof fn lemma_refs_same<T>(s: Seq<T>, t: Seq<T>, v: Seq<&mut T>, p: spec_fn(T) -> bool)
    requires refs(s, t, v, p), forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> *final(v[i]) == *v[i]
    ensures t =~= s
{
    assert forall|i: int| 0 <= i < s.len() implies t[i] == s[i] by { lemma_cnt(s, p, s.len() as int); if p(s[i]) { let c = cnt(s, p, i); assert(*v[c] == s[i]); } }
}
// which names were collected
pub proof fn lemma_names<T: HasName>(s: Seq<T>, t: Seq<T>, v: Seq<&mut T>, spec: Seq<char>, names: Seq<String>)
    requires refs(s, t, v, named(spec)), names.len() == v.len(), forall|i: int| #![trigger names[i]] 0 <= i < names.len() ==> names[i]@ == (*v[i]).nm()
    ensures forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (hit(names, s[i].nm()) <==> matches(s[i].nm(), spec)),
        forall|n: Seq<char>| #[trigger] hit(names, n) ==> any_sel(s, |x: T| x.nm() == n && matches(x.nm(), spec)),
        names.len() > 0 <==> any_sel(s, named::<T>(spec)),
{
    lemma_cnt(s, named::<T>(spec), s.len() as int);
    assert forall|n: Seq<char>| #[trigger] hit(names, n) implies any_sel(s, |x: T| x.nm() == n && matches(x.nm(), spec)) by {
        let j = choose|j: int| 0 <= j < names.len() && (#[trigger] names[j])@ == n;
        lemma_nth(s, named::<T>(spec), s.len() as int, j);
        let i = nth_sel(s, named::<T>(spec), j);
        assert(t[i] == t[i]);
        assert(*v[j] == s[i]);
    }
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies (hit(names, s[i].nm()) <==> matches(s[i].nm(), spec)) by {
        if matches(s[i].nm(), spec) { assert(named::<T>(spec)(s[i])); assert(t[i] == t[i]); let c = cnt(s, named::<T>(spec), i); assert(names[c]@ == s[i].nm()); }
    }
    if any_sel(s, named::<T>(spec)) { let i = choose|i: int| 0 <= i < s.len() && named::<T>(spec)(#[trigger] s[i]); }
}
#[verifier::external_body]
pub fn Register__present_fields(r: &Register) -> String { unimplemented!() }
}
