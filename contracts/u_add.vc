//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_wc.rs
//@use p_text.rs
//@import p_make.rs p_block.rs p_iter.rs
//@use p_find.rs
//@import p_addpos.rs
//@methods Peripheral: insert_child add_child
//@methods Cluster: insert_child add_child
verus! {
// exactly one new element, as described, at the right place; all others as before and in order
pub open spec fn added<T>(s: Seq<T>, t: Seq<T>, new: T, at: int) -> bool { 0 <= at <= s.len() && t == s.insert(at, new) }
pub open spec fn rc_key() -> spec_fn(RegisterCluster) -> int { |rc: RegisterCluster| match rc { RegisterCluster::Register(r) => ma(r).address_offset as int, RegisterCluster::Cluster(c) => ma(c).address_offset as int } }
pub open spec fn per_key() -> spec_fn(Peripheral) -> int { |p: Peripheral| ma(p).base_address as int }
pub open spec fn placed<T>(s: Seq<T>, t: Seq<T>, new: T, k: spec_fn(T) -> int) -> bool { exists|at: int| #[trigger] added(s, t, new, at) && adding(keys(s, k), k(new), at) }

//@fn src/patch/register.rs | RegisterExt for Register | add_field
//@self Register
//@spec
    ensures has_name(reg_fields(*old(self_)), fname@) ==> r is Err,
        r is Ok ==> reg_only_fields(ma(*final(self_)), ma(*old(self_))) && ma_shape(*final(self_), *old(self_)) && ma(*final(self_)).fields is Some
            && exists|f: Field| #[trigger] fld_full(fname@, *fadd, Some(rpath), f) && reg_fields(*final(self_)) == reg_fields(*old(self_)).push(f),
        r is Err ==> *final(self_) == *old(self_),
//@start
    let ghost s0_ = reg_fields(*self_);
//@tail
    proof { let f = reg_fields(*self_).last(); assert(fld_full(fname@, *fadd, Some(rpath), f)); assert(reg_fields(*self_) =~= s0_.push(f)); }
//@end
//@fn src/patch/peripheral.rs | InterruptExt for Peripheral | add_interrupt
//@self Peripheral
//@spec
    ensures has_name(ma(*old(self_)).interrupt@, iname@) ==> r is Err,
        r is Ok ==> per_only_interrupt(ma(*final(self_)), ma(*old(self_))) && ma_shape(*final(self_), *old(self_))
            && exists|i: Interrupt| #[trigger] int_full(iname@, *iadd, i) && ma(*final(self_)).interrupt@ == ma(*old(self_)).interrupt@.push(i),
//@start
    let ghost s0_ = ma(*self_).interrupt@;
//@tail
    proof { let i = ma(*self_).interrupt@.last(); assert(int_full(iname@, *iadd, i)); assert(ma(*self_).interrupt@ =~= s0_.push(i)); }
//@end
//@fn src/patch/device.rs | DeviceExt for Device | add_peripheral
//@self Device
//@sub adding_pos( =>> adding_pos_u64(Ghost(per_key()), 
//@spec
    ensures has_name(old(self_).peripherals@, pname@) ==> r is Err,
        r is Ok ==> dev_only_peripherals(*final(self_), *old(self_)) && exists|p: Peripheral| #[trigger] per_full(pname@, *padd, p) && placed(old(self_).peripherals@, final(self_).peripherals@, p, per_key()),
        r is Err ==> *final(self_) == *old(self_),
//@closure 1 |$1: &Peripheral| -> (b: u64)
    ensures b as int == per_key()(*$1)
//@before "let pos ="
    proof { assert(per_full(pname@, *padd, pnew)); }
    let ghost s0_ = self_.peripherals@; let ghost n0_ = pnew;
//@tail
    proof { assert(exists|at: int| #[trigger] added(s0_, self_.peripherals@, n0_, at) && adding(keys(s0_, per_key()), per_key()(n0_), at)) by { assert(added(s0_, self_.peripherals@, n0_, pos as int)); } assert(placed(s0_, self_.peripherals@, n0_, per_key())); }
//@end
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | RegisterBlockExt for $T | add_child
//@self $T
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) == Some(kidz($T_kids(*old(self_))).push(child)),
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | insert_child
//@self $T
//@spec
    requires 0 <= pos <= kidz($T_kids(*old(self_))).len()
    ensures $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) == Some(kidz($T_kids(*old(self_))).insert(pos as int, child)),
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | add_register
//@self $T
//@sub adding_pos( =>> adding_pos_u32(Ghost(rc_key()), 
//@spec
    ensures has_Register(kidz($T_kids(*old(self_))), rname@) ==> r is Err,
        r is Ok ==> $T_kids_frame(*final(self_), *old(self_)) && $T_kids(*final(self_)) is Some && exists|x: Register| #[trigger] reg_full(rname@, *radd, Some(bpath), x)
            && placed(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), RegisterCluster::Register(x), rc_key()),
        r is Err ==> *final(self_) == *old(self_),
//@closure 1 |$1: &Register| -> (b: bool)
    ensures b == ($1.nm() == rname@)
//@closure 2 |$1: &RegisterCluster| -> (b: u32)
    ensures b as int == rc_key()(*$1)
//@start
    broadcast use {lemma_ref_Register, lemma_ref_Cluster}; proof { axiom_string_eq(); }
    let ghost s0_ = kidz($T_kids(*self_)); let ghost o0_ = *self_;
//@before "if let Some(children) = self.children()"
    let ghost n0_ = rnew;
    proof { assert(reg_full(rname@, *radd, Some(bpath), as_Register(n0_).unwrap())); }
//@after "self.insert_child("
    proof { assert(added(s0_, kidz($T_kids(*self_)), n0_, pos as int)); }
//@after "self.add_child("
    proof { assert(kidz($T_kids(*self_)) =~= s0_.insert(0, n0_)); assert(added(s0_, kidz($T_kids(*self_)), n0_, 0)); assert(keys(s0_, rc_key()).len() == 0); }
//@tail
    proof { assert($T_kids_frame(*self_, o0_)); assert(placed(s0_, kidz($T_kids(*self_)), n0_, rc_key())); }
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | add_cluster
//@self $T
//@sub adding_pos( =>> adding_pos_u32(Ghost(rc_key()), 
//@spec
    ensures has_Cluster(kidz($T_kids(*old(self_))), cname@) ==> r is Err,
        r is Ok ==> $T_kids_frame(*final(self_), *old(self_)) && $T_kids(*final(self_)) is Some && exists|x: Cluster| #[trigger] cl_full(cname@, *cadd, Some(bpath), x)
            && placed(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), RegisterCluster::Cluster(x), rc_key()),
        r is Err ==> *final(self_) == *old(self_),
//@closure 1 |$1: &Cluster| -> (b: bool)
    ensures b == ($1.nm() == cname@)
//@closure 2 |$1: &RegisterCluster| -> (b: u32)
    ensures b as int == rc_key()(*$1)
//@start
    broadcast use {lemma_ref_Register, lemma_ref_Cluster}; proof { axiom_string_eq(); }
    let ghost s0_ = kidz($T_kids(*self_)); let ghost o0_ = *self_;
//@before "if let Some(children) = self.children()"
    let ghost n0_ = cnew;
    proof { assert(cl_full(cname@, *cadd, Some(bpath), as_Cluster(n0_).unwrap())); }
//@after "self.insert_child("
    proof { assert(added(s0_, kidz($T_kids(*self_)), n0_, pos as int)); }
//@after "self.add_child("
    proof { assert(kidz($T_kids(*self_)) =~= s0_.insert(0, n0_)); assert(added(s0_, kidz($T_kids(*self_)), n0_, 0)); assert(keys(s0_, rc_key()).len() == 0); }
//@tail
    proof { assert($T_kids_frame(*self_, o0_)); assert(placed(s0_, kidz($T_kids(*self_)), n0_, rc_key())); }
//@end
//@endeach
}
fn main(){}
