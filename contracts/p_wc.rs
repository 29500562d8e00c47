// The write constraint a patch dictionary gives.
verus! {
pub open spec fn yu64(y: Yaml) -> Option<u64> { match yint_in(y, u64::MAX as int) { Some(v) => Some(v as u64), None => None } }
pub open spec fn yrange(y: Yaml) -> Option<WriteConstraint> {
    match y {
        Yaml::Array(a) => if a@.len() == 2 && yu64(a@[0]) is Some && yu64(a@[1]) is Some {
            Some(WriteConstraint::Range(WriteConstraintRange { min: yu64(a@[0]).unwrap(), max: yu64(a@[1]).unwrap() })) } else { None },
        _ => None,
    }
}
// the key under which a write constraint is given
pub open spec fn wc_value(h: Hash) -> Option<Yaml> {
    match yget(h, "_write_constraint"@) { Some(y) => Some(y), None => yget(h, "writeConstraint"@) }
}
//@fn src/patch/mod.rs | get_write_constraint
//@sub .or_else(|| h.get_yaml("writeConstraint")) =>> .or_else_v(|| -> (o_: Option<&Yaml>) ensures (match o_ { Some(y) => yget(*h, "writeConstraint"@) == Some(*y), None => yget(*h, "writeConstraint"@) is None }) { h.get_yaml("writeConstraint") })
//@spec
    ensures match wc_value(*h) {
        None => r is Ok && r.unwrap() is None,
        Some(y) => if ystr(y) == Some("none"@) { r is Ok && r.unwrap() is None }
            else if ystr(y) == Some("enum"@) { r is Ok && r.unwrap() == Some(WriteConstraint::UseEnumeratedValues(true)) }
            else { match yrange(y) { Some(w) => r is Ok && r.unwrap() == Some(w), None => r is Err } },
    },
//@start
    proof { axiom_string_eq(); }
//@end
}
