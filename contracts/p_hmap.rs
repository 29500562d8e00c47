// Dictionaries of the patch as maps, and their mutation.
//@wrap get contains_key insert remove entry contains extend iter_mut clone starts_with to_yaml
verus! {
// ---- equality of yaml values (yaml-rust derives it) ----
// TRUSTED: `==` on yaml values is an equivalence that tells texts apart by their characters
pub uninterp spec fn yeq(a: Yaml, b: Yaml) -> bool;
pub broadcast axiom fn axiom_yeq_refl(a: Yaml) ensures #[trigger] yeq(a, a);
pub broadcast axiom fn axiom_yeq_sym(a: Yaml, b: Yaml) ensures #[trigger] yeq(a, b) == yeq(b, a);
pub axiom fn axiom_yeq_trans(a: Yaml, b: Yaml, c: Yaml) requires yeq(a, b), yeq(b, c) ensures yeq(a, c);
pub broadcast axiom fn axiom_yeq_str(a: Yaml, b: Yaml) requires ystr(a) is Some || ystr(b) is Some ensures #[trigger] yeq(a, b) == (ystr(a) == ystr(b));
// ---- dictionaries ----
// the value under a key
pub open spec fn ha(h: Hash, k: Yaml, i: int) -> bool { 0 <= i < hents(h).len() && yeq(hents(h)[i].0, k) }
pub open spec fn hget(h: Hash, k: Yaml) -> Option<Yaml> { if exists|i: int| ha(h, k, i) { Some(hents(h)[choose|i: int| ha(h, k, i)].1) } else { None } }
// TRUSTED: keys are distinct; a value found by a text key is the one `get` gives
pub axiom fn axiom_keys(h: Hash, i: int, j: int) requires 0 <= i < hents(h).len(), 0 <= j < hents(h).len(), yeq(hents(h)[i].0, hents(h)[j].0) ensures i == j;
pub axiom fn axiom_yget(h: Hash, k: Yaml) requires ystr(k) is Some ensures hget(h, k) == yget(h, ystr(k).unwrap());
pub proof fn lemma_hget(h: Hash, k: Yaml, i: int) requires ha(h, k, i) ensures hget(h, k) == Some(hents(h)[i].1) {
    broadcast use {axiom_yeq_sym};
    let j = choose|i: int| ha(h, k, i);
    axiom_yeq_trans(hents(h)[i].0, k, hents(h)[j].0); axiom_keys(h, i, j);
}
pub proof fn lemma_hget_eq(h: Hash, a: Yaml, b: Yaml) requires yeq(a, b) ensures hget(h, a) == hget(h, b) {
    broadcast use {axiom_yeq_sym};
    if exists|i: int| ha(h, a, i) { let i = choose|i: int| ha(h, a, i); axiom_yeq_trans(hents(h)[i].0, a, b); assert(ha(h, b, i)); lemma_hget(h, a, i); lemma_hget(h, b, i); }
    else if exists|i: int| ha(h, b, i) { let i = choose|i: int| ha(h, b, i); axiom_yeq_trans(hents(h)[i].0, b, a); assert(ha(h, a, i)); }
}
// q is p with `v` under `k` and nothing else changed
pub open spec fn hupd(p: Hash, k: Yaml, v: Option<Yaml>, q: Hash) -> bool { hget(q, k) == v && forall|x: Yaml| !yeq(x, k) ==> #[trigger] hget(q, x) == hget(p, x) }
pub uninterp spec fn hset(h: Hash, k: Yaml, v: Yaml) -> Hash;
pub uninterp spec fn hrem(h: Hash, k: Yaml) -> Hash;
pub broadcast axiom fn axiom_hset(h: Hash, k: Yaml, v: Yaml) ensures hupd(h, k, Some(v), #[trigger] hset(h, k, v));
pub broadcast axiom fn axiom_hrem(h: Hash, k: Yaml) ensures hupd(h, k, None, #[trigger] hrem(h, k));
// ---- TRUSTED wrappers of the dictionary (hashlink) ----
pub trait HMapX {
    fn get_v<'a>(&'a self, k: &Yaml) -> Option<&'a Yaml>;
    fn contains_key_v(&self, k: &Yaml) -> bool;
    fn insert_v(&mut self, k: Yaml, v: Yaml) -> Option<Yaml>;
    fn remove_v(&mut self, k: &Yaml) -> Option<Yaml>;
    fn entry_v<'a>(&'a mut self, k: Yaml) -> Entry<'a>;
    fn iter_mut_v<'a>(&'a mut self) -> Vec<(&'a Yaml, &'a mut Yaml)>;
}
pub struct OccE<'a> { pub v: &'a mut Yaml }
pub enum Entry<'a> { Occupied(OccE<'a>), Vacant }
impl<'a> OccE<'a> {
    pub fn get_mut(&mut self) -> (r: &mut Yaml) ensures *r == *old(self).v, *final(self).v == *final(r), *final(final(self).v) == *final(old(self).v) { &mut *self.v }
    pub fn insert_v(self, y: Yaml) ensures *final(self.v) == y { *self.v = y; }
}
impl HMapX for Hash {
    #[verifier::external_body] fn get_v<'a>(&'a self, k: &Yaml) -> (r: Option<&'a Yaml>) ensures match r { Some(y) => hget(*self, *k) == Some(*y), None => hget(*self, *k) is None } { self.get(k) }
    #[verifier::external_body] fn contains_key_v(&self, k: &Yaml) -> (r: bool) ensures r == hget(*self, *k) is Some { self.contains_key(k) }
    #[verifier::external_body] fn insert_v(&mut self, k: Yaml, v: Yaml) -> (r: Option<Yaml>) ensures *final(self) == hset(*old(self), k, v) { self.insert(k, v) }
    #[verifier::external_body] fn remove_v(&mut self, k: &Yaml) -> (r: Option<Yaml>) ensures *final(self) == hrem(*old(self), *k) { self.remove(k) }
    // the entry under a key: what it is set to is what the dictionary has there afterwards
    #[verifier::external_body] fn entry_v<'a>(&'a mut self, k: Yaml) -> (r: Entry<'a>)
        ensures match r { Entry::Occupied(e) => hget(*old(self), k) == Some(*e.v) && hupd(*old(self), k, Some(*final(e.v)), *final(self)), Entry::Vacant => hget(*old(self), k) is None && *final(self) == *old(self) }
    { unimplemented!() }
    #[verifier::external_body] fn iter_mut_v<'a>(&'a mut self) -> (r: Vec<(&'a Yaml, &'a mut Yaml)>)
        ensures r@.len() == hents(*old(self)).len(), hents(*final(self)).len() == r@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger hents(*old(self))[i]] #![trigger hents(*final(self))[i]] 0 <= i < r@.len() ==> *r@[i].0 == hents(*old(self))[i].0 && *r@[i].1 == hents(*old(self))[i].1
                && hents(*final(self))[i] == (hents(*old(self))[i].0, *final(r@[i].1))
    { self.iter_mut().collect() }
}
// TRUSTED (std): lists of yaml values
pub open spec fn ahas(a: Seq<Yaml>, y: Yaml) -> bool { exists|i: int| 0 <= i < a.len() && #[trigger] yeq(a[i], y) }
pub open spec fn drop_eq(a: Seq<Yaml>, y: Yaml) -> Seq<Yaml> { a.filter(|x: Yaml| !yeq(x, y)) }
pub trait YX { fn clone_v(&self) -> Yaml; }
impl YX for Yaml { #[verifier::external_body] fn clone_v(&self) -> (r: Yaml) ensures r == *self { self.clone() } }
#[verifier::external_body] pub fn yaml_eq(a: &Yaml, b: &Yaml) -> (r: bool) ensures r == yeq(*a, *b) { a == b }
}
