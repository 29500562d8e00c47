// Lists of yaml values.
verus! {
// TRUSTED (std)
pub trait YVecX { fn contains_v(&self, y: &Yaml) -> bool; fn extend_v(&mut self, o: Vec<Yaml>); fn insert_v(&mut self, i: usize, y: Yaml); fn clone_v(&self) -> Vec<Yaml>; }
impl YVecX for Vec<Yaml> {
    #[verifier::external_body] fn contains_v(&self, y: &Yaml) -> (r: bool) ensures r == ahas(self@, *y) { self.contains(y) }
    #[verifier::external_body] fn extend_v(&mut self, o: Vec<Yaml>) ensures final(self)@ == old(self)@ + o@ { self.extend(o) }
    #[verifier::external_body] fn insert_v(&mut self, i: usize, y: Yaml) ensures final(self)@ == old(self)@.insert(i as int, y) { self.insert(i, y) }
    #[verifier::external_body] fn clone_v(&self) -> (r: Vec<Yaml>) ensures r@ == self@ { self.clone() }
}
#[verifier::external_body] pub fn drop_equal(a: &mut Vec<Yaml>, y: &Yaml) ensures final(a)@ == drop_eq(old(a)@, *y) { a.retain(|x| x != y) }
}
