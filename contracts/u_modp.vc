//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_wc.rs
//@use p_text.rs
//@import p_make.rs p_block.rs p_iter.rs p_kids.rs p_find.rs p_spec.rs
//@use p_clone.rs p_path.rs
verus! {
// ---- peripherals ----
pub open spec fn derives(p: Peripheral, n: Seq<char>) -> bool { match ma(p).derived_from { Some(s) => s@ == n, None => false } }
pub open spec fn name_before(v: Seq<&mut Peripheral>, k: int, n: Seq<char>) -> bool { exists|j: int| 0 <= j < k && (*(#[trigger] v[j])).nm() == n }
// TRUSTED (std): a set of names
#[verifier::external_body] pub struct NameSet { s: std::collections::HashSet<String> }
impl View for NameSet { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl NameSet {
    #[verifier::external_body] pub fn new() -> (r: NameSet) ensures r@ == Set::<Seq<char>>::empty() { NameSet { s: std::collections::HashSet::new() } }
    #[verifier::external_body] pub fn insert(&mut self, x: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(x@) { self.s.insert(x) }
    #[verifier::external_body] pub fn contains_v(&self, x: &String) -> (r: bool) ensures r == self@.contains(x@) { self.s.contains(x) }
}
// TRUSTED (std): the block of a list of exactly one
#[verifier::external_body]
pub fn one_block<'a>(v: &'a mut Option<Vec<AddressBlock>>) -> (r: Option<&'a mut AddressBlock>)
    ensures match r {
        Some(x) => (*old(v)) is Some && (*old(v)).unwrap()@.len() == 1 && *x == (*old(v)).unwrap()@[0] && (*final(v)) is Some && (*final(v)).unwrap()@ == seq![*final(x)],
        None => !((*old(v)) is Some && (*old(v)).unwrap()@.len() == 1) && *final(v) == *old(v) }
{ match v.as_deref_mut() { Some([adb]) => Some(adb), _ => None } }
// an entry of `interrupts` changes the first interrupt of its name, if there is one
pub open spec fn int_step(s: Seq<Interrupt>, e: (Yaml, Yaml), t: Seq<Interrupt>) -> bool {
    if has_name(s, kstr(e.0)) { exists|k: int, m: IntB| #[trigger] at_name(s, kstr(e.0), k) && #[trigger] int_made(hv(e.1), m) && t.len() == s.len() && int_mod(s[k], m, t[k])
        && forall|i: int| 0 <= i < s.len() && i != k ==> #[trigger] t[i] == s[i] } else { t == s }
}
pub open spec fn ints_upto(es: Seq<(Yaml, Yaml)>, s: Seq<Interrupt>, t: Seq<Interrupt>, n: int) -> bool decreases n {
    if n <= 0 { t == s } else { exists|u: Seq<Interrupt>| ints_upto(es, s, u, n - 1) && #[trigger] int_step(u, es[n - 1], t) }
}
pub open spec fn ints_took(h: Hash, s: Seq<Interrupt>, t: Seq<Interrupt>) -> bool { match h_hash(h, "interrupts"@) { None => t == s, Some(x) => ints_upto(hents(x), s, t, hents(x).len() as int) } }
pub open spec fn blocks_took(h: Hash, s: Option<Vec<AddressBlock>>, t: Option<Vec<AddressBlock>>) -> bool {
    match h_hash(h, "addressBlock"@) {
        Some(x) => t is Some && t.unwrap()@.len() == 1 && exists|m: AbB| #[trigger] ab_made(x, m) && (if s is Some && s.unwrap()@.len() == 1 { ab_mod(s.unwrap()@[0], m, t.unwrap()@[0]) } else { ab_built(m, t.unwrap()@[0]) }),
        None => match yget(h, "addressBlocks"@) { Some(Yaml::Array(a)) => t is Some && abs_made(a@, t.unwrap()@), _ => t == s },
    }
}
pub open spec fn per_took(h: Hash, m: PerB, a: PeripheralInfo, b: PeripheralInfo) -> bool {
    exists|y: PeripheralInfo| #[trigger] per_mod(a, m, y) && $but(per, b, y, interrupt address_block) && ints_took(h, y.interrupt@, b.interrupt@) && blocks_took(h, y.address_block, b.address_block)
}
pub open spec fn per_modified(h: Hash, m: PerB, d: Option<DimElementBuilder>) -> spec_fn(Peripheral, Peripheral) -> bool { |a: Peripheral, b: Peripheral| dim_shape(a, d, b) && per_took(h, m, ma(a), ma(b)) }
pub open spec fn picked_name(s: Seq<Peripheral>, p: spec_fn(Peripheral) -> bool, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) && s[i].nm() == n }
// a peripheral derived from one of the picked ones follows the new name
pub open spec fn follows(s: Seq<Peripheral>, p: spec_fn(Peripheral) -> bool, n: Option<Seq<char>>, x: Peripheral, y: Peripheral) -> bool {
    if n is Some && ma(x).derived_from is Some && picked_name(s, p, ma(x).derived_from.unwrap()@) { ma_shape(y, x) && $but(per, ma(y), ma(x), derived_from) && derives(y, n.unwrap()) } else { y == x }
}
pub open spec fn follow_all(s: Seq<Peripheral>, p: spec_fn(Peripheral) -> bool, n: Option<Seq<char>>, u: Seq<Peripheral>, t: Seq<Peripheral>) -> bool {
    t.len() == u.len() && forall|i: int| 0 <= i < t.len() ==> follows(s, p, n, u[i], #[trigger] t[i])
}
pub open spec fn pers_modified(h: Hash, s: Seq<Peripheral>, p: spec_fn(Peripheral) -> bool, u: Seq<Peripheral>) -> bool {
    if any_sel(s, p) { exists|m: PerB, d: Option<DimElementBuilder>| #[trigger] per_made(h, true, m) && #[trigger] dim_of(h, d) && upd_sel(s, u, p, per_modified(h, m, d)) } else { u == s }
}
pub proof fn lemma_ints(es: Seq<(Yaml, Yaml)>, s: Seq<Interrupt>, u: Seq<Interrupt>, t: Seq<Interrupt>, n: int)
    requires n >= 0, ints_upto(es, s, u, n), int_step(u, es[n], t) ensures ints_upto(es, s, t, n + 1) { let m = n + 1; assert(m - 1 == n); assert(ints_upto(es, s, u, m - 1)); assert(int_step(u, es[m - 1], t)); assert(ints_upto(es, s, t, m)); }
pub proof fn lemma_names(s: Seq<Peripheral>, t: Seq<Peripheral>, v: Seq<&mut Peripheral>, p: spec_fn(Peripheral) -> bool, n: Seq<char>)
    requires refs(s, t, v, p) ensures name_before(v, v.len() as int, n) == picked_name(s, p, n)
{
    lemma_cnt(s, p, s.len() as int);
    if name_before(v, v.len() as int, n) { let j = choose|j: int| 0 <= j < v.len() && (*(#[trigger] v[j])).nm() == n; lemma_nth(s, p, s.len() as int, j); let i = nth_sel(s, p, j); assert(*v[j] == s[i]); assert(picked_name(s, p, n)); }
    if picked_name(s, p, n) { let i = choose|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) && s[i].nm() == n; let c = cnt(s, p, i); assert((*v[c]).nm() == n); }
}
//@fn src/patch/device.rs | DeviceExt for Device | modify_peripheral
//@self Device
//@attr #[verifier::rlimit(200)]
//@attr #[verifier::loop_isolation(false)]
//@sub? .collect::<Vec<_>>() =>>
//@sub HashSet::new() =>> NameSet::new()
//@sub? v.as_deref_mut() =>> one_block(v)
//@sub? Some([adb]) =>> Some(adb)
//@sub? vec![ab.build(VAL_LVL)?] =>> vec1(ab.build(VAL_LVL)?)
//@spec
    ensures r is Ok ==> dev_only_peripherals(*final(self_), *old(self_)),
        r is Ok ==> exists|u: Seq<Peripheral>| #[trigger] pers_modified(*pmod, old(self_).peripherals@, named(pspec@), u)
            && follow_all(old(self_).peripherals@, named(pspec@), h_str(*pmod, "name"@), u, final(self_).peripherals@),
//@start
    let ghost s0_ = self_.peripherals@; let ghost p_ = named::<Peripheral>(pspec@);
    proof { axiom_string_eq(); lemma_cnt(s0_, p_, s0_.len() as int); }
//@before-loop 1
    let ghost m_ = per_b(peripheral_builder); let ghost d_ = dim;
    proof { assert(per_made(*pmod, true, m_)); assert(dim_of(*pmod, d_)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> per_modified(*pmod, m_, d_)(*g1_[j], *final(#[trigger] g1_[j])),
        forall|n: Seq<char>| #[trigger] modified@.contains(n) == name_before(g1_, it.index(), n),
//@loop-start 1
    let ghost k_ = it.index();
//@after "ptag.modify_from("
    let ghost y_ = ma(*ptag); let ghost x_ = *ptag;
    proof { assert(per_mod(ma(*g1_[k_]), m_, y_)); }
//@loop 2 it2 hoistv
    invariant it2.seq() == g2_, eqe(g2_, hents(*ints)), $but(per, ma(*ptag), y_, interrupt), ma_shape(*ptag, x_),
        ints_upto(hents(*ints), y_.interrupt@, ma(*ptag).interrupt@, it2.index() as int),
//@loop-start 2
    proof { assert(*g2_[it2.index()].0 == hents(*ints)[it2.index()].0); }
//@before-loop 3
    let ghost a3_ = *ptag; let ghost s3_ = ma(*ptag).interrupt@; let ghost m3_ = int_b(int_); let ghost mut hit_: int = -1;
    proof { assert(int_made(hv(*val), m3_)); }
//@loop 3 it3 indexed
    invariant_except_break hit_ == -1, n3_ == s3_.len(), $but(per, ma(*ptag), ma(a3_), interrupt), ma_shape(*ptag, a3_), ma(*ptag).interrupt@ =~= s3_, forall|j: int| 0 <= j < it3 ==> (#[trigger] s3_[j]).nm() != iname@,
//@after "i.modify_from("
    proof { hit_ = it3 as int; assert(at_name(s3_, iname@, hit_)); assert(ma(*ptag).interrupt@ =~= s3_.update(hit_, ma(*ptag).interrupt@[hit_])); assert(int_mod(s3_[hit_], m3_, ma(*ptag).interrupt@[hit_])); }
//@after-loop 3
    proof { assert(kstr(hents(*ints)[it2.index()].0) == iname@); assert(int_step(s3_, hents(*ints)[it2.index()], ma(*ptag).interrupt@)); lemma_ints(hents(*ints), y_.interrupt@, s3_, ma(*ptag).interrupt@, it2.index() as int); }
//@after-loop 1
    let ghost u1_ = self_.peripherals@;
    proof {
        assert forall|n: Seq<char>| #[trigger] modified@.contains(n) == picked_name(s0_, p_, n) by { lemma_names(s0_, u1_, g1_, p_, n); }
        assert(any_sel(s0_, p_)); assert(upd_sel(s0_, u1_, p_, per_modified(*pmod, m_, d_))); assert(pers_modified(*pmod, s0_, p_, u1_));
    }
//@before "if let Some(value) = pmod"
    let ghost u_ = self_.peripherals@;
    proof { if !any_sel(s0_, p_) { assert(u_ =~= s0_); } assert(pers_modified(*pmod, s0_, p_, u_)); assert(forall|n: Seq<char>| #[trigger] modified@.contains(n) == picked_name(s0_, p_, n)); }
//@sub? self.peripherals.iter_mut() =>> self_.peripherals.iter_mut_v()
//@loop 4 it4 hoist
    invariant it4.seq() == g4_, forall|j: int| 0 <= j < it4.index() ==> follows(s0_, p_, Some(value@), *g4_[j], *final(#[trigger] g4_[j])),
//@tail
    proof { assert(follow_all(s0_, p_, h_str(*pmod, "name"@), u_, self_.peripherals@)); }
//@loop-end 1
    proof {
        assert(ints_took(*pmod, y_.interrupt@, ma(*ptag).interrupt@)); assert(blocks_took(*pmod, y_.address_block, ma(*ptag).address_block));
        assert(per_took(*pmod, m_, ma(*g1_[k_]), ma(*ptag))); assert(per_modified(*pmod, m_, d_)(*g1_[k_], *ptag));
    }
//@end
}
fn main(){}
