//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_block.rs
//@import p_iter.rs p_kids.rs
//@methods Peripheral: clear_field=&Register__clear_field
//@methods Cluster: clear_field=&Register__clear_field
//@methods Device: clear_fields=&Peripheral__clear_fields
verus! {
pub open spec fn fld_cleared(a: Field, b: Field) -> bool {
    if ma(a).derived_from is Some { b == a } else {
        ma(b).enumerated_values@.len() == 0 && ma(b).write_constraint is None && ma_shape(b, a)
        && $but(fld, ma(b), ma(a), enumerated_values write_constraint)
    }
}
// every selected field cleared, nothing else changed
pub open spec fn reg_cleared(a: Register, b: Register, fspec: Seq<char>) -> bool {
    reg_fields_frame(b, a) && upd_sel(reg_fields(a), reg_fields(b), named(fspec), |x: Field, y: Field| fld_cleared(x, y))
}
pub open spec fn reg_cleared_nd(a: Register, b: Register) -> bool { if ma(a).derived_from is Some { b == a } else { reg_cleared(a, b, "*"@) } }
pub open spec fn per_cleared(a: Peripheral, b: Peripheral, rspec: Seq<char>) -> bool {
    Peripheral_kids_frame(b, a) && Peripheral_rest(b) == Peripheral_rest(a)
    && upd_sel(Peripheral_flat(a), Peripheral_flat(b), named(rspec), |x: Register, y: Register| reg_cleared_nd(x, y))
}
pub open spec fn per_cleared_nd(a: Peripheral, b: Peripheral) -> bool { if ma(a).derived_from is Some { b == a } else { per_cleared(a, b, "*"@) } }
//@fn src/patch/register.rs | RegisterExt for Register | clear_field
//@self Register
//@spec
    ensures r is Ok, reg_cleared(*old(self_), *final(self_), fspec@),
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> fld_cleared(*g1_[j], *final(#[trigger] g1_[j])),
//@end
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | clear_fields
//@self $T
//@sub? self.all_regs_mut().matched(rspec) =>> { let v_ = $T__all_regs_mut(self_); let ghost gv_ = v_@; let r_ = v_.matched(rspec); proof { lemma_refs_matched_all(s0_, gv_, r_@, rspec@); } r_ }
//@spec
    ensures r is Ok, $T_kids_frame(*final(self_), *old(self_)), $T_rest(*final(self_)) == $T_rest(*old(self_)),
        upd_sel($T_flat(*old(self_)), $T_flat(*final(self_)), named(rspec@), |x: Register, y: Register| reg_cleared_nd(x, y)),
//@start
    let ghost s0_ = $T_flat(*self_);
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> reg_cleared_nd(*g1_[j], *final(#[trigger] g1_[j])),
//@end
//@endeach
//@fn src/patch/device.rs | DeviceExt for Device | clear_fields
//@self Device
//@spec
    ensures r is Ok, dev_only_peripherals(*final(self_), *old(self_)),
        upd_sel(old(self_).peripherals@, final(self_).peripherals@, named(pspec@), |x: Peripheral, y: Peripheral| per_cleared_nd(x, y)),
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> per_cleared_nd(*g1_[j], *final(#[trigger] g1_[j])),
//@end
}
fn main(){}
