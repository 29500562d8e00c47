// A range described for a field.
verus! {
pub open spec fn fld_wc(a: Field, b: Field, x: WriteConstraint) -> bool { ma_shape(b, a) && fld_only_write_constraint(ma(b), ma(a)) && ma(b).write_constraint == Some(x) }
//@fn src/patch/register.rs | RegisterExt for Register | process_field_range
//@self Register
//@sig pub fn process_field_range(self_: &mut Register, fspec: &str, fmod: &Vec<Yaml>) -> (r: Result<()>)
//@attr #[verifier::loop_isolation(false)]
//@sub? self.present_fields() =>> ()
//@spec
    requires fmod@.len() == 2,
    ensures reg_fields_frame(*final(self_), *old(self_)),
        ({
            let s = reg_fields(*old(self_)); let t = reg_fields(*final(self_)); let p = named::<Field>(sel(fspec@));
            let w = yrange(Yaml::Array(*fmod));
            &&& !any_sel(s, p) ==> t =~= s && (r is Ok <==> sel_opt(fspec@))
            &&& any_sel(s, p) ==> (r is Ok <==> w is Some)
            &&& r is Ok && any_sel(s, p) ==> upd_sel(s, t, p, |x: Field, y: Field| fld_wc(x, y, w.unwrap()))
            // even a failing description touches no other field
            &&& t.len() == s.len() && forall|i: int| 0 <= i < s.len() && !p(s[i]) ==> t[i] == #[trigger] s[i]
        }),
//@start
    broadcast use lemma_none;
    let ghost s0_ = reg_fields(*self_);
    let ghost w_ = yrange(Yaml::Array(*fmod));
//@loop 1 it hoist
    invariant it.seq() == g1_, fmod@.len() == 2, w_ == yrange(Yaml::Array(*fmod)),
        set_any == (it.index() > 0),
        it.index() > 0 ==> w_ is Some,
        forall|j: int| 0 <= j < it.index() ==> fld_wc(*g1_[j], *final(#[trigger] g1_[j]), w_.unwrap()),
//@end
}
