// Placing enumerated values on a field (C14).
//@wrap is_empty as_mut_slice
verus! {
// TRUSTED (std): `match v.as_mut_slice() { [] => .., [a] => .., [a, b] => .., _ => .. }` as a match on an enum with the same cases
pub enum SliceViewMut<'a, T> { Nil, One(&'a mut T), Two(&'a mut T, &'a mut T), More }
#[verifier::external_body]
pub fn slice_view_mut<'a, T>(s: &'a mut Vec<T>) -> (r: SliceViewMut<'a, T>)
    ensures match r {
        SliceViewMut::Nil => old(s)@.len() == 0 && final(s)@ == old(s)@,
        SliceViewMut::One(a) => old(s)@.len() == 1 && old(s)@[0] == *a && final(s)@ == seq![*final(a)],
        SliceViewMut::Two(a, b) => old(s)@.len() == 2 && old(s)@[0] == *a && old(s)@[1] == *b && final(s)@ == seq![*final(a), *final(b)],
        SliceViewMut::More => old(s)@.len() > 2 && final(s)@ == old(s)@ }
{ unimplemented!() }
pub trait SliceX<T> { fn as_mut_slice_v(&mut self) -> &mut Vec<T>; fn is_empty_v(&self) -> bool; }
impl<T> SliceX<T> for Vec<T> {
    fn as_mut_slice_v(&mut self) -> (r: &mut Vec<T>) ensures *r == *old(self), *final(self) == *final(r) { self }
    fn is_empty_v(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.len() == 0 }
}
// TRUSTED (derive(PartialEq) of svd-rs): usages are equal iff they are the same
#[verifier::external_body]
pub proof fn axiom_usage_eq()
    ensures <Usage as vstd::std_specs::cmp::PartialEqSpec<Usage>>::obeys_eq_spec(), forall|a: Usage, b: Usage| #[trigger] <Usage as vstd::std_specs::cmp::PartialEqSpec<Usage>>::eq_spec(&a, &b) == (a == b),
{}
// ---- SPECIFICATION ----
pub open spec fn retag(b: EnumeratedValues, a: EnumeratedValues, u: Usage) -> bool { b.usage == Some(u) && b.name == a.name && b.derived_from == a.derived_from && b.values == a.values }
// may `val` be described for `u` on a field with the lists `e`?
pub open spec fn may_set(e: Seq<EnumeratedValues>, u: Usage, replace: bool, a: Access) -> bool {
    // replacing needs a list to replace
    if replace { e.len() < 2 || u is ReadWrite || (e.len() == 2 && (e[0].usage == Some(u) || e[1].usage == Some(u))) }
    // otherwise no list of the same usage may be there, nor one for both ways; one without a usage is for both ways on a field that goes one way
    else { e.len() == 0 || (!(u is ReadWrite) && e.len() == 1 && e[0].usage != Some(u) && e[0].usage != Some(Usage::ReadWrite) && (e[0].usage is None ==> can_both(a))) }
}
// the lists the field has afterwards
pub open spec fn set_evs(e: Seq<EnumeratedValues>, val: EnumeratedValues, u: Usage, a: Access, t: Seq<EnumeratedValues>) -> bool {
    if u is ReadWrite || e.len() == 0 { t =~= seq![val] }
    else if e.len() == 1 {
        if e[0].usage is None && can_both(a) { t.len() == 2 && retag(t[0], e[0], if u is Read { Usage::Write } else { Usage::Read }) && retag(t[1], val, u) }
        else if e[0].usage is None || e[0].usage == Some(u) || e[0].usage == Some(Usage::ReadWrite) { t =~= seq![val] }
        else { t =~= e.push(val) }
    } else { t =~= seq![if e[0].usage == Some(u) { val } else { e[0] }, if e[1].usage == Some(u) { val } else { e[1] }] }
}
//@fn src/patch/register.rs | RegisterExt for Register | process_field_enum::set_enum
//@guards
//@closure 1 || -> (r: PatchResult)
    ensures r is Err
//@spec
    ensures
        r is Ok <==> may_set(old(f).enumerated_values@, usage, replace, access),
        r is Ok ==> set_evs(old(f).enumerated_values@, val, usage, access, final(f).enumerated_values@),
        fld_only_enumerated_values(*final(f), *old(f)), r is Err ==> final(f).enumerated_values@ == old(f).enumerated_values@,
//@start
    proof { axiom_usage_eq(); }
//@end
}
