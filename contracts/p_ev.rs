// Building enumerated values from their description (C14).
//@wrap starts_with into
verus! {
//@type src/patch/mod.rs | VAL_LVL
// ---- TRUSTED (std) ----
pub trait IntoX { fn into_v(&self) -> String; }
impl IntoX for str { #[verifier::external_body] fn into_v(&self) -> (r: String) ensures r@ == self@ { self.into() } }
#[verifier::external_body] pub fn digit_first(s: &str) -> (r: bool) ensures s@.len() > 0, r == ('0' <= s@[0] && s@[0] <= '9') { s.as_bytes()[0].is_ascii_digit() }
#[verifier::external_body] pub fn first_two<'a>(v: &'a Vec<Yaml>) -> (r: Option<(&'a Yaml, &'a Yaml)>) ensures match r { Some((a, b)) => v@.len() >= 2 && *a == v@[0] && *b == v@[1], None => v@.len() < 2 } { v.first().zip(v.get(1)) }
// an ordered map from numbers: its values come in the order of the keys
#[verifier::external_body] pub struct SortedMap { m: std::collections::BTreeMap<u64, EnumeratedValue> }
pub open spec fn ascending(k: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> k[i] < k[j] }
impl View for SortedMap { type V = Map<u64, EnumeratedValue>; uninterp spec fn view(&self) -> Map<u64, EnumeratedValue>; }
impl SortedMap {
    #[verifier::external_body] pub fn new() -> (r: SortedMap) ensures r@ == Map::<u64, EnumeratedValue>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn has(&self, k: u64) -> (r: bool) ensures r == self@.contains_key(k) { self.m.contains_key(&k) }
    #[verifier::external_body] pub fn put(&mut self, k: u64, v: EnumeratedValue) ensures final(self)@ == old(self)@.insert(k, v) { self.m.insert(k, v); }
    #[verifier::external_body] pub fn into_values(self) -> (r: Vec<EnumeratedValue>) ensures exists|k: Seq<u64>| #[trigger] keyed(k, r@, self@) { self.m.into_values().collect() }
    pub fn entry<'a>(&'a mut self, k: u64) -> (r: Entry<'a>) ensures match r { Entry::Occupied(_) => old(self)@.contains_key(k), Entry::Vacant(e) => !old(self)@.contains_key(k) && e.k == k && *e.m == *old(self) && *final(self) == *final(e.m) }
    { if self.has(k) { Entry::Occupied(()) } else { Entry::Vacant(Gap { m: self, k }) } }
}
pub open spec fn keyed(k: Seq<u64>, v: Seq<EnumeratedValue>, m: Map<u64, EnumeratedValue>) -> bool {
    ascending(k) && k.len() == v.len() && (forall|x: u64| #![trigger m.contains_key(x)] #![trigger k.contains(x)] m.contains_key(x) <==> k.contains(x)) && forall|i: int| 0 <= i < k.len() ==> m[k[i]] == #[trigger] v[i]
}
pub struct Gap<'a> { pub m: &'a mut SortedMap, pub k: u64 }
pub enum Entry<'a> { Occupied(()), Vacant(Gap<'a>) }
impl<'a> Gap<'a> { pub fn insert(self, v: EnumeratedValue) ensures final(self.m)@ == old(self.m)@.insert(self.k, v) { self.m.put(self.k, v); } }
// ---- SPECIFICATION ----
pub open spec fn is_digit_(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn ev_entry(e: (Yaml, Yaml)) -> bool { !has_prefix(kstr(e.0), seq!['_']) }
// the number an entry stands for; -1 is the default, last of all
pub open spec fn ev_key(e: (Yaml, Yaml)) -> Option<u64> {
    match yvec(e.1) { Some(a) => if a.len() < 2 { None } else if yint(a[0]) == Some(-1i64) { Some(u64::MAX) } else { match yint_in(a[0], u64::MAX as int) { Some(n) => Some(n as u64), None => None } }, None => None }
}
// the name, the description and the value of an entry
pub open spec fn ev_is(e: (Yaml, Yaml), ev: EnumeratedValue) -> bool {
    let a = yvec(e.1).unwrap();
    &&& ystr(e.0) == Some(ev.name@) && ystr(a[1]) is Some
    &&& match ev.description { Some(d) => ystr(a[1]) == Some(d@), None => ystr(a[1]).unwrap().len() == 0 }
    &&& if yint(a[0]) == Some(-1i64) { ev.is_default == Some(true) && ev.value is None } else { ev.is_default is None && ev.value == ev_key(e) }
}
// `v` are exactly the described values, in ascending order, each once
pub open spec fn ev_list(h: Hash, v: Seq<EnumeratedValue>) -> bool {
    &&& forall|j: int| #![trigger hents(h)[j]] 0 <= j < hents(h).len() && ev_entry(hents(h)[j]) ==> ystr(hents(h)[j].0) is Some && !is_digit_(kstr(hents(h)[j].0)[0]) && ev_key(hents(h)[j]) is Some
    &&& forall|i: int, j: int| #![trigger hents(h)[i], hents(h)[j]] 0 <= i < j < hents(h).len() && ev_entry(hents(h)[i]) && ev_entry(hents(h)[j]) ==> ev_key(hents(h)[i]) != ev_key(hents(h)[j])
    &&& exists|k: Seq<u64>| #[trigger] ev_keyed(h, v, k)
}
pub open spec fn evs_of(m: EvsB, h: Hash) -> bool { m.name is None && m.usage is None && m.derived_from is None && m.values is Some && ev_list(h, m.values.unwrap()@) }
pub open spec fn ev_keyed(h: Hash, v: Seq<EnumeratedValue>, k: Seq<u64>) -> bool {
    &&& ascending(k) && k.len() == v.len()
    &&& forall|i: int| 0 <= i < k.len() ==> #[trigger] ev_some(h, k[i], v[i])
    &&& forall|j: int| #![trigger hents(h)[j]] 0 <= j < hents(h).len() && ev_entry(hents(h)[j]) ==> k.contains(ev_key(hents(h)[j]).unwrap())
}
pub open spec fn ev_some(h: Hash, k: u64, v: EnumeratedValue) -> bool { exists|j: int| ev_at(h, j, k, v) }
pub open spec fn ev_at(h: Hash, j: int, k: u64, v: EnumeratedValue) -> bool { 0 <= j < hents(h).len() && ev_entry(hents(h)[j]) && ev_key(hents(h)[j]) == Some(k) && ev_is(hents(h)[j], v) }
//@fn src/patch/mod.rs | make_ev_name
//@sub name.as_bytes()[0].is_ascii_digit() =>> digit_first(name)
//@plus
//@spec
    ensures r is Ok <==> name@.len() > 0 && !is_digit_(name@[0]),
        r is Ok ==> r.unwrap()@ == name@ + (match usage { Some(Usage::Read) => seq!['R'], Some(Usage::Write) => seq!['W'], _ => Seq::empty() }),
//@start
    proof { reveal_strlit("R"); reveal_strlit("W"); reveal_strlit(""); assert("R"@ =~= seq!['R']); assert("W"@ =~= seq!['W']); assert(""@ =~= Seq::<char>::empty()); assert(name@ + Seq::<char>::empty() =~= name@); }
//@end
//@fn src/patch/mod.rs | make_derived_enumerated_values
//@spec
    ensures r is Ok, evs_derived(r.unwrap(), name@),
//@end
pub open spec fn evs_derived(e: EnumeratedValues, n: Seq<char>) -> bool { e.derived_from is Some && e.derived_from.unwrap()@ == n && e.name is None && e.usage is None && e.values@.len() == 0 }
pub open spec fn ev_map(h: Hash, n: int, m: Map<u64, EnumeratedValue>) -> bool {
    &&& forall|j: int| #![trigger hents(h)[j]] 0 <= j < n && ev_entry(hents(h)[j]) ==> ystr(hents(h)[j].0) is Some && !is_digit_(kstr(hents(h)[j].0)[0]) && ev_key(hents(h)[j]) is Some && m.contains_key(ev_key(hents(h)[j]).unwrap())
    &&& forall|i: int, j: int| #![trigger hents(h)[i], hents(h)[j]] 0 <= i < j < n && ev_entry(hents(h)[i]) && ev_entry(hents(h)[j]) ==> ev_key(hents(h)[i]) != ev_key(hents(h)[j])
    &&& forall|k: u64| #[trigger] m.contains_key(k) ==> exists|j: int| j < n && #[trigger] ev_at(h, j, k, m[k])
}
proof fn lemma_ev_step(h: Hash, n: int, m: Map<u64, EnumeratedValue>, ev: EnumeratedValue)
    requires ev_map(h, n, m), 0 <= n < hents(h).len(), ev_entry(hents(h)[n]), ystr(hents(h)[n].0) is Some, !is_digit_(kstr(hents(h)[n].0)[0]), ev_key(hents(h)[n]) is Some, !m.contains_key(ev_key(hents(h)[n]).unwrap()), ev_is(hents(h)[n], ev),
    ensures ev_map(h, n + 1, m.insert(ev_key(hents(h)[n]).unwrap(), ev)),
{
    let k_ = ev_key(hents(h)[n]).unwrap(); let q = m.insert(k_, ev);
    assert(ev_at(h, n, k_, q[k_]));
    assert forall|k: u64| #[trigger] q.contains_key(k) implies exists|j: int| j < n + 1 && #[trigger] ev_at(h, j, k, q[k]) by {
        if k != k_ { assert(m.contains_key(k)); let j = choose|j: int| j < n && #[trigger] ev_at(h, j, k, m[k]); assert(ev_at(h, j, k, q[k])); } else { assert(ev_at(h, n, k, q[k])); }
    }
}
proof fn lemma_keyed(h: Hash, m: Map<u64, EnumeratedValue>) requires ev_map(h, hents(h).len() as int, m) ensures forall|k: Seq<u64>, v: Seq<EnumeratedValue>| #[trigger] keyed(k, v, m) ==> ev_list(h, v) {
    assert forall|k: Seq<u64>, v: Seq<EnumeratedValue>| #[trigger] keyed(k, v, m) implies ev_list(h, v) by {
        assert forall|i: int| 0 <= i < k.len() implies #[trigger] ev_some(h, k[i], v[i]) by {
            assert(k.contains(k[i])); assert(m.contains_key(k[i])); assert(m[k[i]] == v[i]);
            let j = choose|j: int| j < hents(h).len() && #[trigger] ev_at(h, j, k[i], m[k[i]]);
            assert(ev_at(h, j, k[i], v[i]));
        }
        assert forall|j: int| #![trigger hents(h)[j]] 0 <= j < hents(h).len() && ev_entry(hents(h)[j]) implies k.contains(ev_key(hents(h)[j]).unwrap()) by { assert(m.contains_key(ev_key(hents(h)[j]).unwrap())); }
        assert(ev_keyed(h, v, k));
    }
}
//@fn src/patch/mod.rs | make_ev_array
//@attr #[verifier::loop_isolation(false)]
//@sub std::collections::BTreeMap::new() =>> SortedMap::new()
//@sub use std::collections::btree_map::Entry; =>>
//@sub vname.as_bytes()[0].is_ascii_digit() =>> digit_first(vname)
//@sub vd.first().zip(vd.get(1)) =>> first_two(vd)
//@sub h.into_values().collect() =>> h.into_values()
//@spec
    ensures r is Ok ==> evs_of(evs_b(r.unwrap()), *values),
//@loop 1 it hoistv
    invariant it.seq() == g1_, eqe(g1_, hents(*values)), ev_map(*values, it.index() as int, h@),
//@loop-start 1
    let ghost i_ = it.index() as int; let ghost e_ = hents(*values)[i_]; let ghost m_ = h@;
    proof { assert(*g1_[i_].0 == e_.0 && *g1_[i_].1 == e_.1); }
//@after "h.entry(value)"
    proof { assert(ev_entry(e_)); assert(ev_key(e_) == Some(value)); assert(ev_is(e_, h@[value])); lemma_ev_step(*values, i_, m_, h@[value]); }
//@after-loop 1
    proof { lemma_keyed(*values, h@); }
//@end
}
