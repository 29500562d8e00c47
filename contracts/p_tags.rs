// The two tags a field's description can set.
verus! {
pub assume_specification [<ModifiedWriteValues as PartialEq>::eq](a: &ModifiedWriteValues, b: &ModifiedWriteValues) -> (r: bool) ensures r == (*a == *b);
pub open spec fn fld_ra(a: Field, b: Field, x: ReadAction) -> bool { ma_shape(b, a) && fld_only_read_action(ma(b), ma(a)) && ma(b).read_action == Some(x) }
pub open spec fn fld_mwv(a: Field, b: Field, x: ModifiedWriteValues) -> bool {
    ma_shape(b, a) && fld_only_modified_write_values(ma(b), ma(a)) && ma(b).modified_write_values == (if x is Modify { None::<ModifiedWriteValues> } else { Some(x) })
}
//@fn src/patch/register.rs | RegisterExt for Register | set_field_read_action
//@self Register
//@spec
    ensures reg_fields_frame(*final(self_), *old(self_)),
        upd_sel(reg_fields(*old(self_)), reg_fields(*final(self_)), named(sel(fspec@)), |x: Field, y: Field| fld_ra(x, y, action)),
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> fld_ra(*g1_[j], *final(#[trigger] g1_[j]), action),
//@end
//@fn src/patch/register.rs | RegisterExt for Register | set_field_modified_write_values
//@self Register
//@spec
    ensures reg_fields_frame(*final(self_), *old(self_)),
        upd_sel(reg_fields(*old(self_)), reg_fields(*final(self_)), named(sel(fspec@)), |x: Field, y: Field| fld_mwv(x, y, mwv)),
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> fld_mwv(*g1_[j], *final(#[trigger] g1_[j]), mwv),
//@end
}
