//@wrap strip_prefix
// Wrappers for std methods that vstd gives no specification.  Each body IS the std call
// (the extractor renames `.NAME(` to `.NAME_v(`); the contract is assumed (trusted).
verus! {
pub trait VecX<T> {
    fn retain_v<F: FnMut(&T) -> bool>(&mut self, f: F);
    // `retain` whose closure also sets a captured flag: state passed as a second result
    fn retain_flag<F: FnMut(&T) -> (bool, bool)>(&mut self, f: F) -> bool;
}
impl<T> VecX<T> for Vec<T> {
    #[verifier::external_body]
    fn retain_v<F: FnMut(&T) -> bool>(&mut self, f: F)
        ensures forall|p: spec_fn(T) -> bool| (forall|x: &T, b: bool| f.ensures((x,), b) ==> b == p(*x))
            ==> final(self)@ == #[trigger] old(self)@.filter(p),
    { self.retain(f) }
    #[verifier::external_body]
    fn retain_flag<F: FnMut(&T) -> (bool, bool)>(&mut self, mut f: F) -> (r: bool)
        ensures forall|p: spec_fn(T) -> bool| (forall|x: &T, b: (bool, bool)| f.ensures((x,), b) ==> b.0 == p(*x))
                ==> final(self)@ == #[trigger] old(self)@.filter(p),
            exists|bs: Seq<(bool, bool)>| bs.len() == old(self)@.len()
                && (forall|i: int| #![trigger bs[i]] #![trigger old(self)@[i]] 0 <= i < bs.len() ==> f.ensures((&old(self)@[i],), bs[i]))
                && r == (exists|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).1),
    { let mut hit = false; self.retain(|x| { let (k, h) = f(x); hit |= h; k }); hit }
}

pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn has_suffix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub trait StrX {
    fn strip_prefix_v<'a>(&'a self, p: &str) -> Option<&'a str>;
}
impl StrX for str {
    #[verifier::external_body]
    fn strip_prefix_v<'a>(&'a self, p: &str) -> (r: Option<&'a str>)
        ensures match r { Some(t) => has_prefix(self@, p@) && t@ == self@.subrange(p@.len() as int, self@.len() as int),
                          None => !has_prefix(self@, p@) },
    { self.strip_prefix(p) }
}
}
//@wrap or_else zip
verus! {
pub trait OptX<T> {
    fn or_else_v<F: FnOnce() -> Option<T>>(self, f: F) -> Option<T> where Self: Sized requires f.requires(());
    fn zip_v<U>(self, o: Option<U>) -> Option<(T, U)>;
}
impl<T> OptX<T> for Option<T> {
    fn or_else_v<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        ensures match self { Some(x) => r == Some(x), None => f.ensures((), r) },
    { match self { Some(x) => Some(x), None => f() } }
    fn zip_v<U>(self, o: Option<U>) -> (r: Option<(T, U)>)
        ensures r is Some == (self is Some && o is Some), r is Some ==> r.unwrap() == (self.unwrap(), o.unwrap())
    { match (self, o) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
}
}
