//@use p_base.rs p_svd.rs p_frames.rs p_std.rs
//@import p_block.rs p_spec.rs p_iter.rs p_kids.rs p_yaml.rs p_yamlm.rs p_hash.rs p_wc.rs p_range.rs p_usage.rs p_tags.rs
//@methods Register: process_field_enum process_field_range set_field_read_action set_field_modified_write_values
//@wrap any keys contains_key to_yaml is_empty
verus! {
// ---- what a description of a field stands for ----
pub type Row<V> = (Seq<char>, Option<V>);
pub open spec fn read_words() -> Seq<Row<ReadAction>> { seq![("_read"@, None::<ReadAction>), ("_RM"@, Some(ReadAction::Modify)), ("_RS"@, Some(ReadAction::Set)), ("_RC"@, Some(ReadAction::Clear)), ("_RME"@, Some(ReadAction::ModifyExternal))] }
pub open spec fn write_words() -> Seq<Row<ModifiedWriteValues>> { seq![("_write"@, None::<ModifiedWriteValues>), ("_WM"@, Some(ModifiedWriteValues::Modify)), ("_WS"@, Some(ModifiedWriteValues::Set)), ("_WC"@, Some(ModifiedWriteValues::Clear)),
    ("_W1S"@, Some(ModifiedWriteValues::OneToSet)), ("_W0C"@, Some(ModifiedWriteValues::ZeroToClear)), ("_W1C"@, Some(ModifiedWriteValues::OneToClear)), ("_W0S"@, Some(ModifiedWriteValues::ZeroToSet)), ("_W1T"@, Some(ModifiedWriteValues::OneToToggle)), ("_W0T"@, Some(ModifiedWriteValues::ZeroToToggle))] }
// the values listed under a word are described for that usage (what process_field_enum does: u_enum), an empty list describes none
pub uninterp spec fn enum_done(a: Register, f: Seq<char>, h: Hash, u: Option<Usage>, b: Register) -> bool;
pub open spec fn values(a: Register, f: Seq<char>, h: Hash, u: Option<Usage>, b: Register) -> bool { if hents(h).len() == 0 { a == b } else { enum_done(a, f, h, u, b) } }
pub open spec fn tag_r(a: Register, f: Seq<char>, x: Option<ReadAction>, b: Register) -> bool {
    match x { None => a == b, Some(x) => reg_fields_frame(b, a) && upd_sel(reg_fields(a), reg_fields(b), named(sel(f)), |p: Field, q: Field| fld_ra(p, q, x)) } }
pub open spec fn tag_w(a: Register, f: Seq<char>, x: Option<ModifiedWriteValues>, b: Register) -> bool {
    match x { None => a == b, Some(x) => reg_fields_frame(b, a) && upd_sel(reg_fields(a), reg_fields(b), named(sel(f)), |p: Field, q: Field| fld_mwv(p, q, x)) } }
pub open spec fn read_as(a: Register, f: Seq<char>, g: Hash, x: Option<ReadAction>, b: Register) -> bool { exists|m: Register| #[trigger] values(a, f, g, Some(Usage::Read), m) && tag_r(m, f, x, b) }
pub open spec fn write_as(a: Register, f: Seq<char>, g: Hash, x: Option<ModifiedWriteValues>, b: Register) -> bool { exists|m: Register| #[trigger] values(a, f, g, Some(Usage::Write), m) && tag_w(m, f, x, b) }
pub open spec fn one_read(a: Register, f: Seq<char>, h: Hash, w: Row<ReadAction>, b: Register) -> bool {
    yget(h, w.0) is Some && yhash(yget(h, w.0).unwrap()) is Some && read_as(a, f, yhash(yget(h, w.0).unwrap()).unwrap(), w.1, b) }
pub open spec fn one_write(a: Register, f: Seq<char>, h: Hash, w: Row<ModifiedWriteValues>, b: Register) -> bool {
    match yget(h, w.0) { None => a == b, Some(y) => yhash(y) is Some && write_as(a, f, yhash(y).unwrap(), w.1, b) } }
// every word for writing that is there, in some order
pub open spec fn all_writes(a: Register, f: Seq<char>, h: Hash, ws: Seq<Row<ModifiedWriteValues>>, n: int, b: Register) -> bool decreases n {
    if n <= 0 { a == b } else { exists|m: Register| all_writes(a, f, h, ws, n - 1, m) && #[trigger] one_write(m, f, h, ws[n - 1], b) } }
pub open spec fn has_any<V>(h: Hash, t: Seq<Row<V>>) -> bool { exists|i: int| 0 <= i < t.len() && yget(h, (#[trigger] t[i]).0) is Some }
pub open spec fn reads(a: Register, f: Seq<char>, h: Hash, m: Register) -> bool { if has_any(h, read_words()) { exists|i: int| 0 <= i < read_words().len() && one_read(a, f, h, #[trigger] read_words()[i], m) } else { m == a } }
pub open spec fn writes(m: Register, f: Seq<char>, h: Hash, b: Register) -> bool { if has_any(h, write_words()) { exists|ws: Seq<Row<ModifiedWriteValues>>| ws.to_multiset() == write_words().to_multiset() && ws.len() == write_words().len() && #[trigger] all_writes(m, f, h, ws, ws.len() as int, b) } else { m == b } }
pub open spec fn field_done(a: Register, f: Seq<char>, y: Yaml, b: Register) -> bool {
    match y {
        Yaml::Hash(h) => if !has_any(h, read_words()) && !has_any(h, write_words()) { enum_done(a, f, h, None, b) } else { exists|m: Register| #[trigger] reads(a, f, h, m) && writes(m, f, h, b) },
        Yaml::Array(v) => v@.len() == 2 && { reg_fields_frame(b, a) && if any_sel(reg_fields(a), named::<Field>(sel(f))) { yrange(y) is Some && upd_sel(reg_fields(a), reg_fields(b), named(sel(f)), |p: Field, q: Field| fld_wc(p, q, yrange(y).unwrap())) } else { sel_opt(f) && reg_fields(b) =~= reg_fields(a) } },
        _ => a == b,
    }
}
pub proof fn lemma_read(a: Register, f: Seq<char>, h: Hash, w: Row<ReadAction>, g: Hash, m: Register, b: Register) requires yget(h, w.0) is Some, yhash(yget(h, w.0).unwrap()) == Some(g), values(a, f, g, Some(Usage::Read), m), tag_r(m, f, w.1, b) ensures one_read(a, f, h, w, b) { assert(read_as(a, f, g, w.1, b)); }
pub proof fn lemma_write(a: Register, f: Seq<char>, h: Hash, w: Row<ModifiedWriteValues>, g: Hash, m: Register, b: Register) requires yget(h, w.0) is Some, yhash(yget(h, w.0).unwrap()) == Some(g), values(a, f, g, Some(Usage::Write), m), tag_w(m, f, w.1, b) ensures one_write(a, f, h, w, b) { assert(write_as(a, f, g, w.1, b)); }
pub proof fn lemma_next(a: Register, f: Seq<char>, h: Hash, ws: Seq<Row<ModifiedWriteValues>>, n: int, m: Register, b: Register) requires n >= 0, all_writes(a, f, h, ws, n, m), one_write(m, f, h, ws[n], b) ensures all_writes(a, f, h, ws, n + 1, b) { let k = n + 1; assert(one_write(m, f, h, ws[k - 1], b)); }
// one word for writing and nothing else: its values, then its tag
pub proof fn lemma_one(a: Register, f: Seq<char>, h: Hash, ws: Seq<Row<ModifiedWriteValues>>, n: int, k: int, b: Register)
    requires 0 <= n <= ws.len(), all_writes(a, f, h, ws, n, b), 0 <= k < ws.len(), forall|i: int| 0 <= i < n && i != k ==> yget(h, (#[trigger] ws[i]).0) is None
    ensures k < n ==> one_write(a, f, h, ws[k], b), k >= n ==> a == b
    decreases n
{ if n > 0 { let m = choose|m: Register| all_writes(a, f, h, ws, n - 1, m) && #[trigger] one_write(m, f, h, ws[n - 1], b); lemma_one(a, f, h, ws, n - 1, k, m); } }
pub proof fn lemma_has<V>(h: Hash, s: Seq<Row<V>>, t: Seq<Row<V>>) requires s.to_multiset() == t.to_multiset(), s.len() == t.len() ensures has_any(h, s) == has_any(h, t), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> exists|j: int| 0 <= j < t.len() && #[trigger] t[j] == s[i]
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies exists|j: int| 0 <= j < t.len() && #[trigger] t[j] == s[i] by { assert(s.contains(s[i])); assert(s.to_multiset().count(s[i]) > 0); assert(t.contains(s[i])); }
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == t[i] by { assert(t.contains(t[i])); assert(t.to_multiset().count(t[i]) > 0); assert(s.contains(t[i])); }
    if has_any(h, s) { let i = choose|i: int| 0 <= i < s.len() && yget(h, (#[trigger] s[i]).0) is Some; let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == s[i]; assert(yget(h, t[j].0) is Some); }
    if has_any(h, t) { let i = choose|i: int| 0 <= i < t.len() && yget(h, (#[trigger] t[i]).0) is Some; let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == t[i]; assert(yget(h, s[j].0) is Some); }
}
// ---- TRUSTED: a phf table yields each of its entries once, in some order ----
pub struct PTable<V> { pub v: Vec<(&'static str, Option<V>)> }
pub open spec fn rows<V>(v: Seq<(&'static str, Option<V>)>) -> Seq<Row<V>> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1)) }
#[verifier::external_body] pub fn ptable<V>(v: Vec<(&'static str, Option<V>)>) -> (r: PTable<V>) ensures rows(r.v@).to_multiset() == rows(v@).to_multiset(), r.v@.len() == v@.len() { PTable { v } }
impl<V> PTable<V> {
    #[verifier::external_body] pub fn keys_v(&self) -> (r: Vec<&'static str>) ensures r@.len() == self.v@.len(), forall|i: int| #![trigger r@[i]] #![trigger rows(self.v@)[i]] 0 <= i < r@.len() ==> r@[i]@ == rows(self.v@)[i].0 { self.v.iter().map(|x| x.0).collect() }
    #[verifier::external_body] pub fn it_v<'a>(&'a self) -> (r: Vec<(&'a &'static str, &'a Option<V>)>) ensures r@.len() == self.v@.len(), forall|i: int| #![trigger r@[i]] #![trigger rows(self.v@)[i]] 0 <= i < r@.len() ==> r@[i].0@ == rows(self.v@)[i].0 && *r@[i].1 == rows(self.v@)[i].1 { self.v.iter().map(|x| (&x.0, &x.1)).collect() }
}
pub trait AnyX { fn any_v<F: Fn(&'static str) -> bool>(self, f: F) -> bool; }
impl AnyX for Vec<&'static str> { #[verifier::external_body] fn any_v<F: Fn(&'static str) -> bool>(self, f: F) -> (r: bool)
    ensures if r { exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true) } else { forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false) } { self.into_iter().any(f) } }
pub trait HasX { fn contains_key_v(&self, k: &Yaml) -> bool; fn is_empty_v(&self) -> bool; }
impl HasX for Hash { #[verifier::external_body] fn contains_key_v(&self, k: &Yaml) -> (r: bool) ensures ystr(*k) is Some ==> (r <==> yget(*self, ystr(*k).unwrap()) is Some) { self.contains_key(k) }
    #[verifier::external_body] fn is_empty_v(&self) -> (r: bool) ensures r == (hents(*self).len() == 0) { self.is_empty() } }
pub trait ToYaml { fn to_yaml_v(&self) -> Yaml; }
impl ToYaml for str { #[verifier::external_body] fn to_yaml_v(&self) -> (r: Yaml) ensures ystr(r) == Some(self@) { unimplemented!() } }
pub struct RegisterPath { pub x: u8 }
pub struct Config { pub x: u8 }
#[verifier::external_body] pub fn Register__process_field_enum(self_: &mut Register, f: &str, h: &Hash, p: &RegisterPath, u: Option<Usage>, c: &Config) -> (r: PatchResult) ensures r is Ok ==> enum_done(*old(self_), f@, *h, u, *final(self_)) { unimplemented!() }
//@fn src/patch/register.rs | RegisterExt for Register | process_field
//@self Register
//@guards
//@attr #[verifier::loop_isolation(false)]
//@sub self.process_field_range(fspec, fmod, rpath) =>> process_field_range(self_, fspec, fmod)
//@spec
    ensures r is Ok ==> field_done(*old(self_), fspec@, *fmod, *final(self_)),
//@start
    let ghost a_ = *self_; let ghost mut m_ = *self_; let ghost mut b_ = *self_;
//@before "match fmod"
    let ghost rr_ = rows(READ.v@); let ghost ww_ = rows(WRITE.v@);
    proof { assert(rows(READ_tab) =~= read_words()); assert(rows(WRITE_tab) =~= write_words()); }
//@before "if !is_read"
    let ghost h_ = *fmod;
    proof { lemma_has(*fmod, rr_, read_words()); lemma_has(*fmod, ww_, write_words());
        assert(is_read == has_any(*fmod, rr_)); assert(is_write == has_any(*fmod, ww_)); }
//@loop 1 it hoistv
    invariant_except_break *self_ == a_, forall|j: int| 0 <= j < it.index() ==> yget(h_, (#[trigger] rr_[j]).0) is None,
    ensures reads(a_, fspec@, h_, *self_)
//@loop-start 1
    let ghost k_ = it.index() as int;
    proof { assert(g1_[k_].0@ == rr_[k_].0); }
//@loop 2 it2 hoistv
    invariant all_writes(b_, fspec@, h_, ww_, it2.index() as int, *self_),
//@before-loop 2
    proof { b_ = *self_; }
//@loop-start 2
    let ghost k_ = it2.index() as int; let ghost c_ = *self_;
    proof { assert(g2_[k_].0@ == ww_[k_].0); }
//@before "if let Some(action) = action"
    let ghost v_ = *self_;
//@after "if let Some(action) = action"
    proof { assert(yhash(yget(h_, rr_[k_].0).unwrap()) == Some(*fmod)); assert(values(a_, fspec@, *fmod, Some(Usage::Read), v_)); assert(tag_r(v_, fspec@, rr_[k_].1, *self_)); lemma_read(a_, fspec@, h_, rr_[k_], *fmod, v_, *self_);
        let j = choose|j: int| 0 <= j < read_words().len() && #[trigger] read_words()[j] == rr_[k_]; assert(one_read(a_, fspec@, h_, read_words()[j], *self_)); }
//@before "if let Some(mwv) = mwv"
    let ghost v_ = *self_;
//@after "if let Some(mwv) = mwv"
    proof { assert(yhash(yget(h_, ww_[k_].0).unwrap()) == Some(*fmod)); assert(values(c_, fspec@, *fmod, Some(Usage::Write), v_)); assert(tag_w(v_, fspec@, ww_[k_].1, *self_)); lemma_write(c_, fspec@, h_, ww_[k_], *fmod, v_, *self_); }
//@loop-end 2
    proof { assert(one_write(c_, fspec@, h_, ww_[k_], *self_)); lemma_next(b_, fspec@, h_, ww_, k_, c_, *self_); }
//@before "if is_write"
    proof { m_ = *self_; assert(reads(a_, fspec@, h_, m_)); }
//@after "if is_write"
    proof { assert(writes(m_, fspec@, h_, *self_)); assert(field_done(a_, fspec@, Yaml::Hash(h_), *self_)); }
//@after-loop 2
    proof { assert(all_writes(b_, fspec@, h_, ww_, ww_.len() as int, *self_)); assert(writes(b_, fspec@, h_, *self_)); }
//@tail
    proof { assert(!(*fmod is Hash) ==> field_done(a_, fspec@, *fmod, *self_)); assert((*fmod is Hash) ==> field_done(a_, fspec@, *fmod, *self_)); }
//@after "self.process_field_range("
    proof { let y = Yaml::Array(*fmod); let s0 = reg_fields(a_); let t0 = reg_fields(*self_); let p0 = named::<Field>(sel(fspec@));
        if any_sel(s0, p0) { assert(yrange(y) is Some); assert(upd_sel(s0, t0, p0, |p: Field, q: Field| fld_wc(p, q, yrange(y).unwrap()))); } assert(field_done(a_, fspec@, y, *self_)); }
//@after "if !is_read"
    proof { assert(field_done(a_, fspec@, Yaml::Hash(h_), *self_)); }
//@closure 1 |key: &'static str| -> (b: bool)
    ensures b == (yget(*fmod, key@) is Some)
//@closure 2 |key: &'static str| -> (b: bool)
    ensures b == (yget(*fmod, key@) is Some)
//@end
}
fn main(){}
