// Clones and text slices of options.
//@wrap clone clone_from as_deref
verus! {
// TRUSTED (derive(Clone) of svd-rs and std): a clone is the same value
pub trait CloneX: Sized { fn clone_v(&self) -> Self; fn clone_from_v(&mut self, o: &Self); }
impl<T: Clone> CloneX for T {
    #[verifier::external_body] fn clone_v(&self) -> (r: T) ensures r == *self { self.clone() }
    #[verifier::external_body] fn clone_from_v(&mut self, o: &T) ensures *final(self) == *o { self.clone_from(o) }
}
pub trait DerefX { fn as_deref_v<'a>(&'a self) -> Option<&'a str>; }
impl DerefX for Option<String> {
    #[verifier::external_body]
    fn as_deref_v<'a>(&'a self) -> (r: Option<&'a str>) ensures match *self { None => r is None, Some(s) => r is Some && r.unwrap()@ == s@ } { self.as_deref() }
}
}
