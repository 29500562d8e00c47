// Shared prelude.  anyhow's error type is abstracted to a value with no content: the contracts
// speak about success or failure, never about the error text.
#![allow(unused, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
verus! {
#[derive(Debug)]
pub struct VErr;
pub type Result<T, E = VErr> = core::result::Result<T, E>;
pub type PatchResult = Result<()>;

// stands for `anyhow!(...)`
pub fn verr() -> VErr { VErr }

// TRUSTED axiom: a str is its characters
#[verifier::external_body]
pub broadcast proof fn axiom_str_ext(a: &str, b: &str)
    ensures (#[trigger] a@) == (#[trigger] b@) ==> a == b {}

// TRUSTED (std): strings are equal iff their characters are
#[verifier::external_body]
pub proof fn axiom_string_eq()
    ensures <String as PartialEqSpec<str>>::obeys_eq_spec(), <String as PartialEqSpec<String>>::obeys_eq_spec(), <str as PartialEqSpec<str>>::obeys_eq_spec(),
        forall|a: String, b: &str| #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@),
        <String as PartialEqSpec<&str>>::obeys_eq_spec(), forall|a: String, b: &str| #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@),
        forall|a: String, b: String| #[trigger] <String as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@),
        forall|a: &str, b: &str| #[trigger] <str as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@),
{}
// the parts of s between the separators c
pub open spec fn splits(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if !s.contains(c) { seq![s] } else {
        let i = s.index_of(c);
        if 0 <= i < s.len() { seq![s.subrange(0, i)].add(splits(s.subrange(i + 1, s.len() as int), c)) } else { seq![s] }
    }
}
// TRUSTED (globset): whether one pattern matches the whole name, with the given options
pub struct GlobOpt { pub case_insensitive: bool, pub literal_separator: bool, pub backslash_escape: bool, pub empty_alternates: bool }
pub uninterp spec fn glob_match(pat: Seq<char>, o: GlobOpt, name: Seq<char>) -> bool;
// case-sensitive, `*`/`?` for any character, `\` quotes, `{a,}` not with an empty alternative
pub open spec fn std_opt() -> GlobOpt { GlobOpt { case_insensitive: false, literal_separator: false, backslash_escape: true, empty_alternates: false } }
pub open spec fn pat_matches(name: Seq<char>, pat: Seq<char>) -> bool { glob_match(pat, std_opt(), name) }
// a selector with braces is one pattern, otherwise a comma-separated list (C01)
#[verifier::opaque]
pub open spec fn matches(name: Seq<char>, spec: Seq<char>) -> bool {
    if spec.contains('{') { pat_matches(name, spec) }
    else { exists|i: int| 0 <= i < splits(spec, ',').len() && pat_matches(name, #[trigger] splits(spec, ',')[i]) }
}
}
