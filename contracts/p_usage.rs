// Usage of enumerated values and access of a field (C14, C15).
verus! {
pub assume_specification [<Usage as core::default::Default>::default]() -> (r: Usage) ensures r == Usage::ReadWrite;
pub open spec fn can_both(a: Access) -> bool { a is ReadWrite || a is ReadWriteOnce }
pub open spec fn can_write_only(a: Access) -> bool { a is WriteOnly || a is WriteOnce }
//@fn src/patch/register.rs | check_usage
//@sig pub fn check_usage(access: Access, usage: Option<Usage>) -> (r: Result<Usage>)
//@spec
    ensures
        // a field that can do both takes any usage, exactly as requested (default: read-write)
        can_both(access) ==> r is Ok && r.unwrap() == (match usage { Some(u) => u, None => Usage::ReadWrite }),
        // a read-only field takes read usage only, a write-only field write usage only
        access is ReadOnly ==> (r is Ok <==> usage is None || usage == Some(Usage::Read)) && (r is Ok ==> r.unwrap() == Usage::Read),
        can_write_only(access) ==> (r is Ok <==> usage is None || usage == Some(Usage::Write)) && (r is Ok ==> r.unwrap() == Usage::Write),
//@end
//@fn src/patch/register.rs | make_usage
//@spec
    ensures
        // omitted exactly when it coincides with the access
        r is None <==> (can_both(access) && usage is ReadWrite) || (access is ReadOnly && usage is Read) || (can_write_only(access) && usage is Write),
        r is Some ==> r.unwrap() == usage,
//@end
}
