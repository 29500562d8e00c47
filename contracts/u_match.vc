//@use p_base.rs
//@wrap contains split is_match or_panic
verus! {
pub trait StrM { fn contains_v(&self, c: char) -> bool; fn split_v(&self, c: char) -> Vec<&str>; }
impl StrM for str {
    // TRUSTED (std)
    #[verifier::external_body]
    fn contains_v(&self, c: char) -> (r: bool) ensures r == self@.contains(c) { self.contains(c) }
    #[verifier::external_body]
    fn split_v(&self, c: char) -> (r: Vec<&str>)
        ensures r@.len() == splits(self@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == splits(self@, c)[i],
    { self.split(c).collect() }
}
// `unwrap`: a panic is a failure of the whole command, so what follows may rely on success
pub trait OrPanic<T> { fn or_panic(self) -> T where Self: Sized; }
impl<T, E> OrPanic<T> for core::result::Result<T, E> {
    #[verifier::external_body]
    fn or_panic(self) -> (r: T) ensures self == Ok::<T, E>(r) { match self { Ok(x) => x, Err(_) => panic!() } }
}
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExGB<'a>(globset::GlobBuilder<'a>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExG(globset::Glob);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExGM(globset::GlobMatcher);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExGE(globset::Error);
pub uninterp spec fn gb_pat<'a>(b: globset::GlobBuilder<'a>) -> Seq<char>;
pub uninterp spec fn gb_opt<'a>(b: globset::GlobBuilder<'a>) -> GlobOpt;
pub uninterp spec fn g_pat(b: globset::Glob) -> Seq<char>;
pub uninterp spec fn g_opt(b: globset::Glob) -> GlobOpt;
pub uninterp spec fn gm_pat(b: globset::GlobMatcher) -> Seq<char>;
pub uninterp spec fn gm_opt(b: globset::GlobMatcher) -> GlobOpt;
// TRUSTED (globset): the builder records its options; matching is defined by pattern and options
pub assume_specification<'a> [globset::GlobBuilder::<'a>::new](p: &'a str) -> (r: globset::GlobBuilder<'a>)
    ensures gb_pat(r) == p@, gb_opt(r) == std_opt();
pub assume_specification<'a, 'b> [globset::GlobBuilder::<'a>::backslash_escape](b: &'b mut globset::GlobBuilder<'a>, y: bool) -> (r: &'b mut globset::GlobBuilder<'a>)
    ensures gb_pat(*r) == gb_pat(*old(b)), gb_opt(*r) == (GlobOpt { backslash_escape: y, ..gb_opt(*old(b)) });
pub assume_specification<'a, 'b> [globset::GlobBuilder::<'a>::case_insensitive](b: &'b mut globset::GlobBuilder<'a>, y: bool) -> (r: &'b mut globset::GlobBuilder<'a>)
    ensures gb_pat(*r) == gb_pat(*old(b)), gb_opt(*r) == (GlobOpt { case_insensitive: y, ..gb_opt(*old(b)) });
pub assume_specification<'a, 'b> [globset::GlobBuilder::<'a>::literal_separator](b: &'b mut globset::GlobBuilder<'a>, y: bool) -> (r: &'b mut globset::GlobBuilder<'a>)
    ensures gb_pat(*r) == gb_pat(*old(b)), gb_opt(*r) == (GlobOpt { literal_separator: y, ..gb_opt(*old(b)) });
pub assume_specification<'a, 'b> [globset::GlobBuilder::<'a>::empty_alternates](b: &'b mut globset::GlobBuilder<'a>, y: bool) -> (r: &'b mut globset::GlobBuilder<'a>)
    ensures gb_pat(*r) == gb_pat(*old(b)), gb_opt(*r) == (GlobOpt { empty_alternates: y, ..gb_opt(*old(b)) });
pub assume_specification<'a> [globset::GlobBuilder::<'a>::build](b: &globset::GlobBuilder<'a>) -> (r: core::result::Result<globset::Glob, globset::Error>)
    ensures r is Ok ==> g_pat(r.unwrap()) == gb_pat(*b) && g_opt(r.unwrap()) == gb_opt(*b);
pub assume_specification [globset::Glob::compile_matcher](g: &globset::Glob) -> (r: globset::GlobMatcher)
    ensures gm_pat(r) == g_pat(*g), gm_opt(r) == g_opt(*g);
pub trait GmX { fn is_match_v(&self, name: &str) -> bool; }
impl GmX for globset::GlobMatcher {
    #[verifier::external_body]
    fn is_match_v(&self, name: &str) -> (r: bool) ensures r == glob_match(gm_pat(*self), gm_opt(*self), name@) { self.is_match(name) }
}
//@fn src/patch/mod.rs | newglob
//@sub? .unwrap() =>> .or_panic()
//@spec
    ensures gm_pat(r) == spec@, gm_opt(r) == std_opt(),
//@end
// the sub-pattern returned is the first that matches
//@fn src/patch/mod.rs | matchsubspec
//@spec
    ensures
        r is Some <==> matches(name@, spec@),
        r is Some ==> pat_matches(name@, r.unwrap()@),
        r is Some && spec@.contains('{') ==> r.unwrap()@ == spec@,
        r is Some && !spec@.contains('{') ==> exists|i: int| 0 <= i < splits(spec@, ',').len() && r.unwrap()@ == #[trigger] splits(spec@, ',')[i]
            && forall|j: int| 0 <= j < i ==> !pat_matches(name@, #[trigger] splits(spec@, ',')[j]),
//@start
    reveal(matches);
//@attr #[verifier::loop_isolation(false)]
//@loop 1 it hoist
    invariant it.seq() == g1_,
        forall|j: int| 0 <= j < it.index() ==> !pat_matches(name@, #[trigger] splits(spec@, ',')[j]),
//@end
//@fn src/patch/mod.rs | matchname
//@spec
    ensures r == matches(name@, spec@),
//@end
// ---- MatchIter::next: the next element the selector picks ----
#[verifier::external_trait_specification]
pub trait ExName { type ExternalTraitSpecificationFor: svd_rs::Name; fn name(&self) -> &str; }
pub uninterp spec fn nm_of<T: svd_rs::Name>(x: T) -> Seq<char>;
// what an iterator still has to yield
pub uninterp spec fn rem<I: Iterator>(it: I) -> Seq<I::Item>;
pub struct MatchIter<'b, I> where I: Iterator, I::Item: svd_rs::Name { pub it: I, pub spec: &'b str }
#[verifier::external_body]
pub fn name_of<T: svd_rs::Name>(x: &T) -> (r: &str) ensures r@ == nm_of(*x) { x.name() }
// TRUSTED (std): `it.by_ref().find(f)` consumes up to and including the first element f accepts
#[verifier::external_body]
pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: F) -> (r: Option<I::Item>)
    ensures exists|k: int, bs: Seq<bool>| #![trigger bs.len(), rem(*old(it)).skip(k)] {
        let s = rem(*old(it));
        &&& 0 <= k <= s.len() && bs.len() == s.len()
        &&& forall|i: int| #![trigger bs[i]] #![trigger s[i]] 0 <= i < bs.len() ==> f.ensures((&s[i],), bs[i])
        &&& forall|i: int| #![trigger bs[i]] #![trigger s[i]] 0 <= i < k ==> !bs[i]
        &&& match r { Some(x) => k < s.len() && bs[k] && x == s[k] && rem(*final(it)) == s.skip(k + 1), None => k == s.len() && rem(*final(it)).len() == 0 }
    },
{ it.by_ref().find(f) }
//@fn src/patch/iterators.rs | Iterator for MatchIter<'_, I> | next
//@self MatchIter
//@sig pub fn MatchIter__next<'b, I: Iterator>(self_: &mut MatchIter<'b, I>) -> (r: Option<I::Item>) where I::Item: svd_rs::Name
//@sub self .it .by_ref() .find( =>> it_find(&mut self_.it, 
//@sub next.name() =>> name_of(next)
//@closure 1 |$1: &I::Item| -> (b: bool)
    ensures b == matches(nm_of(*$1), self_.spec@)
//@spec
    ensures final(self_).spec == old(self_).spec, ({
        let s = rem(old(self_).it); let sp = old(self_).spec@;
        match r {
            Some(x) => exists|k: int| 0 <= k < s.len() && x == #[trigger] s[k] && matches(nm_of(s[k]), sp) && rem(final(self_).it) == s.skip(k + 1)
                && forall|i: int| 0 <= i < k ==> !matches(nm_of(#[trigger] s[i]), sp),
            None => rem(final(self_).it).len() == 0 && forall|i: int| 0 <= i < s.len() ==> !matches(nm_of(#[trigger] s[i]), sp),
        }
    }),
//@end
}
fn main(){}
