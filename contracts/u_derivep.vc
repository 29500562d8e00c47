//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_wc.rs
//@use p_text.rs
//@import p_make.rs p_block.rs p_iter.rs p_find.rs
//@use p_clone.rs p_dev.rs p_path.rs
//@methods Device: present_peripherals
verus! {
#[verifier::external_body] pub fn Device__present_peripherals(d: &Device) -> String { unimplemented!() }
// the source, and what is changed besides
pub open spec fn derive_info(y: Yaml, m: PerB) -> bool {
    &&& tx(m.derived_from) == source(y)
    &&& match y {
        Yaml::String(s) => m == (PerB { derived_from: m.derived_from, ..m }) && per_b_none(PerB { derived_from: None, ..m }),
        Yaml::Hash(h) => exists|m0: PerB| #[trigger] per_made(h, true, m0) && m == (PerB { derived_from: m.derived_from, ..m0 }),
        _ => false }
}
// the target after the derivation
pub open spec fn target(s: Seq<Peripheral>, t: Seq<Peripheral>, n: Seq<char>, m: PerB, k: int) -> bool {
    if has_name(s, n) { at_name(s, n, k) && t.len() == s.len() && (forall|i: int| 0 <= i < s.len() && i != k ==> #[trigger] t[i] == s[i]) && ma_shape(t[k], s[k]) && per_mod(ma(s[k]), m, ma(t[k])) }
    else { k == s.len() && t == s.push(t[k]) && t[k] is Single && ma(t[k]).name@ == n && per_built(PerB { name: Some(ma(t[k]).name), ..m }, ma(t[k])) }
}
pub open spec fn derived(s: Seq<Peripheral>, t: Seq<Peripheral>, n: Seq<char>, y: Yaml, m: PerB, k: int, a: Seq<Peripheral>, u: Seq<Peripheral>) -> bool {
    let from = source(y).unwrap();
    &&& derive_info(y, m) && target(s, a, n, m, k)
    &&& repointed_s(a, u, n, from)
    &&& if from.contains('.') { t == u } else { exists|j: int| #[trigger] at_name(s, from, j) && t == moved(u, j, min_dep(a, n, k, a.len() as int)) }
}
//@fn src/patch/device.rs | DeviceExt for Device | derive_peripheral
//@self Device
//@attr #[verifier::loop_isolation(false)]
//@spec
    ensures source(*pderive) is None ==> r is Err,
        source(*pderive) is Some && !source(*pderive).unwrap().contains('.') && !has_name(old(self_).peripherals@, source(*pderive).unwrap()) ==> r is Err,
        r is Ok ==> dev_only_peripherals(*final(self_), *old(self_)) && exists|m: PerB, k: int, a: Seq<Peripheral>, u: Seq<Peripheral>| #[trigger] derived(old(self_).peripherals@, final(self_).peripherals@, pname@, *pderive, m, k, a, u)
//@start
    proof { axiom_string_eq(); }
    let ghost s0_ = self_.peripherals@; let ghost y_ = *pderive;
//@closure 2 |$1: &(usize, &Peripheral)| -> (b: bool)
    ensures b == ($1.1.nm() == pderive@)
//@closure 3 |$1: &(usize, &mut Peripheral)| -> (b: bool)
    ensures b == mut_named(*$1, pname@)
//@before "let derived_pos ="
    let ghost m_ = per_b(info);
    proof { assert(derive_info(y_, m_)); assert(source(y_) == Some(pderive@)); }
//@before "let mut min_pos"
    proof { if derived_pos is Some { assert(at_name(s0_, pderive@, derived_pos.unwrap() as int)); } }
//@before-loop 1
    let ghost a_ = self_.peripherals@; let ghost k_ = min_pos as int;
    proof {
        if k_ < s0_.len() { assert(at_name(s0_, pname@, k_)); assert(forall|i: int| 0 <= i < s0_.len() && i != k_ ==> #[trigger] a_[i] == s0_[i]); assert(ma_shape(a_[k_], s0_[k_]));  assert(per_mod(ma(s0_[k_]), m_, ma(a_[k_]))); }
        else { assert forall|i: int| 0 <= i < s0_.len() implies (#[trigger] s0_[i]).nm() != pname@ by {} assert(!has_name(s0_, pname@)); assert(a_ =~= s0_.push(a_[k_])); assert(per_built(PerB { name: Some(ma(a_[k_]).name), ..m_ }, ma(a_[k_]))); }
        assert(target(s0_, a_, pname@, m_, k_)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, min_pos == min_dep(a_, pname@, k_, it.index()), forall|j: int| 0 <= j < it.index() ==> repointed(a_[j], *final(#[trigger] g1_[j].1), pname@, pderive@),
//@after-loop 1
    let ghost u_ = self_.peripherals@;
    proof { lemma_min_dep(a_, pname@, k_, a_.len() as int); assert(repointed_s(a_, u_, pname@, pderive@)); }
//@tail
    proof { assert(derived(s0_, self_.peripherals@, pname@, y_, m_, k_, a_, u_)); }
//@end
}
fn main(){}
