//@use p_base.rs p_svd.rs p_frames.rs p_std.rs
//@import p_block.rs p_spec.rs p_iter.rs p_kids.rs p_yaml.rs p_yamlm.rs
//@methods Peripheral: present_registers present_clusters
//@methods Cluster: present_registers present_clusters
//@methods Device: present_peripherals
use svd_parser::expand::BlockPath;
verus! {
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBlockPath(BlockPath);
#[verifier::external_body] pub struct Config {}
// a section or modification applied to one element with success: its content is the subject of other properties
pub uninterp spec fn reg_proc(a: Register, b: Register, m: Hash, p: BlockPath) -> bool;
pub uninterp spec fn cl_proc(a: Cluster, b: Cluster, m: Hash, p: BlockPath) -> bool;
pub uninterp spec fn per_proc(a: Peripheral, b: Peripheral, m: Hash) -> bool;
pub uninterp spec fn reg_mod(a: Register, b: Register, m: Hash, p: BlockPath) -> bool;
pub uninterp spec fn cl_mod(a: Cluster, b: Cluster, m: Hash, p: BlockPath) -> bool;
pub trait ProcX { fn process(&mut self, m: &Hash, p: &BlockPath, config: &Config) -> PatchResult; }
impl ProcX for Register { #[verifier::external_body] fn process(&mut self, m: &Hash, p: &BlockPath, config: &Config) -> (r: PatchResult)
    ensures r is Ok ==> reg_proc(*old(self), *final(self), *m, *p) { unimplemented!() } }
impl ProcX for Cluster { #[verifier::external_body] fn process(&mut self, m: &Hash, p: &BlockPath, config: &Config) -> (r: PatchResult)
    ensures r is Ok ==> cl_proc(*old(self), *final(self), *m, *p) { unimplemented!() } }
pub trait ProcP { fn process(&mut self, m: &Hash, config: &Config) -> PatchResult; }
impl ProcP for Peripheral { #[verifier::external_body] fn process(&mut self, m: &Hash, config: &Config) -> (r: PatchResult)
    ensures r is Ok ==> per_proc(*old(self), *final(self), *m) { unimplemented!() } }
#[verifier::external_body]
pub fn modify_register(rtags: Vec<&mut Register>, rmod: &Hash, bpath: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> forall|j: int| 0 <= j < rtags@.len() ==> reg_mod(*rtags@[j], *final(#[trigger] rtags@[j]), *rmod, *bpath) { unimplemented!() }
#[verifier::external_body]
pub fn modify_cluster(ctags: Vec<&mut Cluster>, cmod: &Hash, bpath: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> forall|j: int| 0 <= j < ctags@.len() ==> cl_mod(*ctags@[j], *final(#[trigger] ctags@[j]), *cmod, *bpath) { unimplemented!() }

//@each K: Register Cluster
// unselected children stay, whatever happens
pub open spec fn only_$K(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, p: spec_fn($K) -> bool) -> bool {
    t.len() == s.len() && forall|i: int| 0 <= i < s.len() && !sel_$K(p)(s[i]) ==> #[trigger] t[i] == s[i]
}
// a section for $Ks: all selected ones take it, or the patch fails
pub open spec fn done_$K(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, spec: Seq<char>, ok: bool, rel: spec_fn($K, $K) -> bool) -> bool {
    let p = named::<$K>(sel(spec));
    &&& !any_$K(s, p) ==> t =~= s && (ok ==> sel_opt(spec))
    &&& any_$K(s, p) && ok ==> upd_$K(s, t, p, rel)
    &&& only_$K(s, t, p)
}
//@endeach
// registers come first: clusters are addressed only if no register is selected
pub open spec fn done_child(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, spec: Seq<char>, ok: bool, rel: spec_fn(Register, Register) -> bool, relc: spec_fn(Cluster, Cluster) -> bool) -> bool {
    if any_Register(s, named(sel(spec))) { done_Register(s, t, spec, ok, rel) } else { done_Cluster(s, t, spec, ok, relc) }
}
//@each T: Peripheral Cluster
#[verifier::external_body] pub fn $T__present_registers(self_: &$T) -> String { unimplemented!() }
#[verifier::external_body] pub fn $T__present_clusters(self_: &$T) -> String { unimplemented!() }
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | process_child
//@self $T
//@attr #[verifier::loop_isolation(false)]
//@sub? .collect::<Vec<_>>() =>> 
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
        done_child(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), rcspec@, r is Ok, |x: Register, y: Register| reg_proc(x, y, *rcmod, *bpath), |x: Cluster, y: Cluster| cl_proc(x, y, *rcmod, *bpath)),
        r is Err ==> !sel_opt(rcspec@) || any_Register(kidz($T_kids(*old(self_))), named(sel(rcspec@))) || any_Cluster(kidz($T_kids(*old(self_))), named(sel(rcspec@))),
//@start
    broadcast use {lemma_none_Register, lemma_none_Cluster};
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> cl_proc(*g1_[j], *final(#[trigger] g1_[j]), *rcmod, *bpath),
//@loop 2 it2 hoist
    invariant it2.seq() == g2_, forall|j: int| 0 <= j < it2.index() ==> reg_proc(*g2_[j], *final(#[trigger] g2_[j]), *rcmod, *bpath),
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | process_cluster
//@self $T
//@attr #[verifier::loop_isolation(false)]
//@sub? .collect::<Vec<_>>() =>> 
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
        done_Cluster(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), cspec@, r is Ok, |x: Cluster, y: Cluster| cl_proc(x, y, *cmod, *bpath)),
        r is Err ==> !sel_opt(cspec@) || any_Cluster(kidz($T_kids(*old(self_))), named(sel(cspec@))),
//@start
    broadcast use {lemma_none_Register, lemma_none_Cluster};
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> cl_proc(*g1_[j], *final(#[trigger] g1_[j]), *cmod, *bpath),
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | process_register
//@self $T
//@attr #[verifier::loop_isolation(false)]
//@sub? .collect::<Vec<_>>() =>> 
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
        done_Register(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), rspec@, r is Ok, |x: Register, y: Register| reg_proc(x, y, *rmod, *bpath)),
        r is Err ==> !sel_opt(rspec@) || any_Register(kidz($T_kids(*old(self_))), named(sel(rspec@))),
//@start
    broadcast use {lemma_none_Register, lemma_none_Cluster};
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> reg_proc(*g1_[j], *final(#[trigger] g1_[j]), *rmod, *bpath),
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | modify_child
//@self $T
//@sub? .collect::<Vec<_>>() =>> 
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
        done_child(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), rcspec@, r is Ok, |x: Register, y: Register| reg_mod(x, y, *rcmod, *bpath), |x: Cluster, y: Cluster| cl_mod(x, y, *rcmod, *bpath)),
//@start
    broadcast use {lemma_none_Register, lemma_none_Cluster};
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | modify_register
//@self $T
//@sub? .collect::<Vec<_>>() =>> 
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
        done_Register(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), rspec@, r is Ok, |x: Register, y: Register| reg_mod(x, y, *rmod, *bpath)),
//@start
    broadcast use {lemma_none_Register, lemma_none_Cluster};
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | modify_cluster
//@self $T
//@sub? .collect::<Vec<_>>() =>> 
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
        done_Cluster(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), cspec@, r is Ok, |x: Cluster, y: Cluster| cl_mod(x, y, *cmod, *bpath)),
//@start
    broadcast use {lemma_none_Register, lemma_none_Cluster};
//@end
//@endeach
#[verifier::external_body] pub fn Device__present_peripherals(self_: &Device) -> String { unimplemented!() }
//@fn src/patch/device.rs | DeviceExt for Device | process_peripheral
//@self Device
//@attr #[verifier::loop_isolation(false)]
//@sub? .collect::<Vec<_>>() =>> 
//@spec
    ensures dev_only_peripherals(*final(self_), *old(self_)), ({
        let s = old(self_).peripherals@; let t = final(self_).peripherals@; let p = named::<Peripheral>(sel(pspec@));
        &&& !any_sel(s, p) ==> t =~= s && (r is Ok <==> sel_opt(pspec@))
        &&& any_sel(s, p) && r is Ok ==> upd_sel(s, t, p, |x: Peripheral, y: Peripheral| per_proc(x, y, *peripheral))
        &&& t.len() == s.len() && forall|i: int| 0 <= i < s.len() && !p(s[i]) ==> #[trigger] t[i] == s[i]
    }),
//@start
    broadcast use lemma_none;
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> per_proc(*g1_[j], *final(#[trigger] g1_[j]), *peripheral),
//@end
}
fn main(){}
