verus! {
// `?~SPEC` is the optional form of the selector SPEC
pub open spec fn sel_opt(s: Seq<char>) -> bool { has_prefix(s, "?~"@) }
pub open spec fn sel(s: Seq<char>) -> Seq<char> { if sel_opt(s) { s.subrange(2, s.len() as int) } else { s } }

pub trait Spec { fn spec(&self) -> (&str, bool); }
//@fn src/patch/mod.rs | Spec for str | spec
//@self str
//@name str__spec
//@spec
    ensures r.0@ == sel(self_@), r.1 == sel_opt(self_@)
//@start
    proof { reveal_strlit("?~"); }
//@end
impl Spec for str {
    fn spec(&self) -> (r: (&str, bool)) ensures r.0@ == sel(self@), r.1 == sel_opt(self@)
    { str__spec(self) }
}
}
