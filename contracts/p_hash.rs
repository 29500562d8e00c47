// Dictionaries of the patch as sequences of entries.
//@wrap keys
verus! {
// ---- what the patch text says ----
// the entries of a dictionary in order
pub uninterp spec fn hents(h: Hash) -> Seq<(Yaml, Yaml)>;
pub open spec fn kstr(y: Yaml) -> Seq<char> { match y { Yaml::String(s) => s@, _ => Seq::empty() } }
pub open spec fn kopt(y: Yaml) -> Option<Seq<char>> { ystr(y) }
pub open spec fn hv(y: Yaml) -> Hash { match y { Yaml::Hash(h) => h, _ => arbitrary() } }
pub open spec fn yh(y: Option<Yaml>) -> Seq<(Yaml, Yaml)> { match y { Some(Yaml::Hash(h)) => hents(h), _ => Seq::empty() } }
pub open spec fn ents(h: Hash, k: Seq<char>) -> Seq<(Yaml, Yaml)> { yh(yget(h, k)) }
pub open spec fn strs(y: Option<Yaml>) -> Seq<Seq<char>> {
    match y { Some(Yaml::String(s)) => seq![s@], Some(Yaml::Array(a)) => a@.map_values(|x: Yaml| kstr(x)), _ => Seq::empty() }
}
pub open spec fn svec(h: Hash, k: Seq<char>) -> Seq<Seq<char>> { strs(yget(h, k)) }
pub open spec fn eqs(v: Seq<&str>, s: Seq<Seq<char>>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i])@ == s[i] }
pub open spec fn eqy(v: Seq<&Yaml>, s: Seq<Yaml>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] v[i]) == s[i] }
pub open spec fn eqe(v: Seq<(&Yaml, &Yaml)>, s: Seq<(Yaml, Yaml)>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] v[i]).0 == s[i].0 && *v[i].1 == s[i].1 }

// ---- iterables as the vectors of what they yield ----
pub trait ItV { type I; spec fn its(self, r: Seq<Self::I>) -> bool; fn it_v(self) -> (r: Vec<Self::I>) where Self: Sized ensures self.its(r@); }
impl<T> ItV for Vec<T> { type I = T; open spec fn its(self, r: Seq<T>) -> bool { r == self@ } fn it_v(self) -> Vec<T> { self } }
// TRUSTED: iterating over a slice or a dictionary yields its elements in order
impl<'a> ItV for &'a Vec<Yaml> { type I = &'a Yaml; open spec fn its(self, r: Seq<&'a Yaml>) -> bool { eqy(r, self@) } #[verifier::external_body] fn it_v(self) -> Vec<&'a Yaml> { self.iter().collect() } }
impl<'a> ItV for &'a Hash { type I = (&'a Yaml, &'a Yaml); open spec fn its(self, r: Seq<(&'a Yaml, &'a Yaml)>) -> bool { eqe(r, hents(*self)) } #[verifier::external_body] fn it_v(self) -> Vec<(&'a Yaml, &'a Yaml)> { self.iter().collect() } }
pub trait HashX { fn keys_v<'a>(&'a self) -> Vec<&'a Yaml>; }
impl HashX for Hash { #[verifier::external_body] fn keys_v<'a>(&'a self) -> (r: Vec<&'a Yaml>) ensures r@.len() == hents(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == hents(*self)[i].0 { self.keys().collect() } }
pub trait GetIter { fn hash_iter<'a>(&'a self, k: &str) -> Vec<(&'a Yaml, &'a Yaml)>; fn str_vec_iter<'a>(&'a self, k: &str) -> Result<Vec<&'a str>>; }
impl GetIter for Hash {
    fn hash_iter<'a>(&'a self, k: &str) -> (r: Vec<(&'a Yaml, &'a Yaml)>) ensures eqe(r@, ents(*self, k@)) { Hash__hash_iter(self, k) }
    fn str_vec_iter<'a>(&'a self, k: &str) -> (r: Result<Vec<&'a str>>) ensures r is Ok ==> eqs(r.unwrap()@, svec(*self, k@)) { Hash__str_vec_iter(self, k) }
}
pub fn opt_iter<T>(o: Option<Vec<T>>) -> (r: Vec<T>) ensures r@ == (match o { Some(v) => v@, None => Seq::empty() }) { match o { Some(v) => v, None => Vec::new() } }
#[verifier::external_body]
pub fn all_strings(y: &Vec<Yaml>) -> (r: bool) ensures r == forall|i: int| 0 <= i < y@.len() ==> ystr(#[trigger] y@[i]) is Some { y.iter().all(|x| x.as_str().is_some()) }
// TRUSTED: OverStringIter yields the string, or the strings of the list in order
#[verifier::external_body]
pub fn over_strings<'a>(y: &'a Yaml) -> (r: Vec<&'a str>)
    requires match *y { Yaml::String(_) => true, Yaml::Array(a) => forall|i: int| 0 <= i < a@.len() ==> ystr(#[trigger] a@[i]) is Some, _ => false },
    ensures eqs(r@, strs(Some(*y)))
{ unimplemented!() }
//@fn src/patch/yaml_ext.rs | trait GetVal | hash_iter
//@self Hash
//@sig pub fn Hash__hash_iter<'a>(self_: &'a Hash, k: &str) -> (r: Vec<(&'a Yaml, &'a Yaml)>)
//@sub HashIter::new( =>> opt_iter(
//@sub .and_then(Yaml::as_hash) =>> .and_then(|y_: &'a Yaml| -> (o_: Option<&'a Hash>) ensures (match *y_ { Yaml::Hash(s) => o_ == Some(&s), _ => o_ is None }) { y_.as_hash() })
//@closure 1 |$1: &'a Hash| -> (o_: Vec<(&'a Yaml, &'a Yaml)>)
    ensures eqe(o_@, hents(*$1))
//@sub h.iter() =>> h.it_v()
//@spec
    ensures eqe(r@, ents(*self_, k@)),
//@end
//@fn src/patch/yaml_ext.rs | trait GetVal | str_vec_iter
//@self Hash
//@sig pub fn Hash__str_vec_iter<'a>(self_: &'a Hash, k: &str) -> (r: Result<Vec<&'a str>>)
//@sub OptIter::new( =>> opt_iter(
//@sub OverStringIter(yaml.unwrap(), None) =>> over_strings(yaml.unwrap())
//@sub y.iter().all(|x| x.as_str().is_some()) =>> all_strings(y)
//@spec
    ensures match r { Ok(v) => eqs(v@, svec(*self_, k@)), Err(_) => yget(*self_, k@) is Some },
//@end
}
