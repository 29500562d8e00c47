//@use p_base.rs p_svd.rs p_frames.rs p_std.rs
//@import p_block.rs p_iter.rs p_kids.rs
//@wrap is_match or_panic insert_str push_str truncate drain_to len
verus! {
impl From<globset::Error> for VErr { #[verifier::external_body] fn from(e: globset::Error) -> VErr { VErr } }
pub trait OrPanic<T> { fn or_panic(self) -> T where Self: Sized; }
impl<T, E> OrPanic<T> for core::result::Result<T, E> {
    #[verifier::external_body]
    fn or_panic(self) -> (r: T) ensures self == Ok::<T, E>(r) { match self { Ok(x) => x, Err(_) => panic!() } }
}
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExG(globset::Glob);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExGM(globset::GlobMatcher);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExGE(globset::Error);
pub uninterp spec fn g_pat(b: globset::Glob) -> Seq<char>;
pub uninterp spec fn gm_pat(b: globset::GlobMatcher) -> Seq<char>;
// TRUSTED (globset): Glob::new compiles the pattern with the default options
pub assume_specification [globset::Glob::new](p: &str) -> (r: core::result::Result<globset::Glob, globset::Error>)
    ensures r is Ok ==> g_pat(r.unwrap()) == p@, lit(p@) ==> r is Ok;
pub assume_specification [globset::Glob::compile_matcher](g: &globset::Glob) -> (r: globset::GlobMatcher) ensures gm_pat(r) == g_pat(*g);
pub trait GmX { fn is_match_v(&self, name: &str) -> bool; }
impl GmX for globset::GlobMatcher {
    #[verifier::external_body]
    fn is_match_v(&self, name: &str) -> (r: bool) ensures r == pat_matches(name@, gm_pat(*self)) { self.is_match(name) }
}
// text without pattern characters stands for itself; a final or initial `*` for any rest
pub open spec fn special(c: char) -> bool { c == '*' || c == '?' || c == '[' || c == ']' || c == '{' || c == '}' || c == '\\' || c == ',' || c == '!' }
pub open spec fn plain(p: Seq<char>) -> bool { forall|i: int| 0 <= i < p.len() ==> !special(#[trigger] p[i]) }
pub open spec fn lit(p: Seq<char>) -> bool { plain(p) || exists|q: Seq<char>| plain(q) && (p == q + seq!['*'] || p == seq!['*'] + q) }
// TRUSTED axiom (globset): what plain text followed or preceded by `*` matches
#[verifier::external_body]
pub proof fn axiom_star(p: Seq<char>)
    requires plain(p)
    ensures forall|n: Seq<char>| #[trigger] pat_matches(n, p + seq!['*']) == has_prefix(n, p),
        forall|n: Seq<char>| #[trigger] pat_matches(n, seq!['*'] + p) == has_suffix(n, p),
{}
// length in bytes
pub uninterp spec fn clen(c: char) -> nat;
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { (blen(s.drop_last()) + clen(s.last())) as nat } }
// TRUSTED axiom (std): a character takes one to four bytes
#[verifier::external_body]
pub broadcast proof fn axiom_clen(c: char) ensures 1 <= #[trigger] clen(c) <= 4 {}
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b), b.len() > 0 ==> blen(b) > 0
    decreases b.len()
{
    broadcast use axiom_clen;
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_blen_add(a, b.drop_last()); }
}
// a cut at byte n is at one character position only
pub proof fn lemma_cut(s: Seq<char>, k: int, l: int)
    requires 0 <= k <= s.len(), 0 <= l <= s.len(), blen(s.subrange(0, k)) == blen(s.subrange(0, l))
    ensures k == l
{
    if k < l { lemma_blen_add(s.subrange(0, k), s.subrange(k, l)); assert(s.subrange(0, k) + s.subrange(k, l) =~= s.subrange(0, l)); }
    if l < k { lemma_blen_add(s.subrange(0, l), s.subrange(l, k)); assert(s.subrange(0, l) + s.subrange(l, k) =~= s.subrange(0, k)); }
}
// the character position of byte n (the std calls panic when there is none)
pub open spec fn at_byte(s: Seq<char>, k: int, n: int) -> bool { 0 <= k <= s.len() && blen(s.subrange(0, k)) == n }
// TRUSTED (std)
#[verifier::external_body]
pub fn s_insert(s: &mut String, at: usize, t: &str)
    ensures exists|k: int| #[trigger] at_byte(old(s)@, k, at as int) && final(s)@ == old(s)@.subrange(0, k) + t@ + old(s)@.skip(k) { s.insert_str(at, t) }
#[verifier::external_body]
pub fn s_truncate(s: &mut String, n: usize)
    ensures if n > blen(old(s)@) { final(s)@ == old(s)@ } else { exists|k: int| #[trigger] at_byte(old(s)@, k, n as int) && final(s)@ == old(s)@.subrange(0, k) }
{ s.truncate(n) }
#[verifier::external_body]
pub fn s_drain_to(s: &mut String, n: usize) ensures exists|k: int| #[trigger] at_byte(old(s)@, k, n as int) && final(s)@ == old(s)@.skip(k) { s.drain(..n); }
#[verifier::external_body]
pub fn s_len(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }
pub proof fn lemma_suffix_len(s: Seq<char>, p: Seq<char>)
    requires has_suffix(s, p) ensures blen(s) == blen(s.subrange(0, s.len() - p.len())) + blen(p)
{ lemma_blen_add(s.subrange(0, s.len() - p.len()), p); assert(s.subrange(0, s.len() - p.len()) + p =~= s); }
pub trait StringX {
    fn insert_str_v(&mut self, at: usize, t: &str);
    fn push_str_v(&mut self, t: &str);
    fn truncate_v(&mut self, n: usize);
    fn drain_to_v(&mut self, n: usize);
    fn len_v(&self) -> usize;
}
impl StringX for String {
    // what the byte-indexed calls mean for whole prefixes and suffixes (proved)
    fn insert_str_v(&mut self, at: usize, t: &str) ensures at == 0 ==> final(self)@ == t@ + old(self)@ {
        let ghost s = self@;
        s_insert(self, at, t);
        proof { if at == 0 { let k = choose|k: int| #[trigger] at_byte(s, k, at as int) && self@ == s.subrange(0, k) + t@ + s.skip(k); assert(s.subrange(0, 0).len() == 0); lemma_cut(s, k, 0); assert(self@ =~= t@ + s); } }
    }
    #[verifier::external_body]
    fn push_str_v(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { self.push_str(t) }
    fn truncate_v(&mut self, n: usize)
        ensures forall|p: Seq<char>| #[trigger] has_suffix(old(self)@, p) && n == blen(old(self)@) - blen(p) ==> final(self)@ == old(self)@.subrange(0, old(self)@.len() - p.len())
    {
        let ghost s = self@;
        s_truncate(self, n);
        proof { assert forall|p: Seq<char>| #[trigger] has_suffix(s, p) && n == blen(s) - blen(p) implies self@ == s.subrange(0, s.len() - p.len()) by {
            lemma_suffix_len(s, p);
            let k = choose|k: int| #[trigger] at_byte(s, k, n as int) && self@ == s.subrange(0, k); lemma_cut(s, k, s.len() - p.len()); } }
    }
    fn drain_to_v(&mut self, n: usize)
        ensures forall|p: Seq<char>| #[trigger] has_prefix(old(self)@, p) && n == blen(p) ==> final(self)@ == old(self)@.skip(p.len() as int)
    {
        let ghost s = self@;
        s_drain_to(self, n);
        proof { assert forall|p: Seq<char>| #[trigger] has_prefix(s, p) && n == blen(p) implies self@ == s.skip(p.len() as int) by {
            let k = choose|k: int| #[trigger] at_byte(s, k, n as int) && self@ == s.skip(k); lemma_cut(s, k, p.len() as int); } }
    }
    fn len_v(&self) -> (r: usize) ensures r == blen(self@), forall|p: Seq<char>| #[trigger] has_suffix(self@, p) ==> r >= blen(p) {
        proof { assert forall|p: Seq<char>| #[trigger] has_suffix(self@, p) implies blen(self@) >= blen(p) by { lemma_suffix_len(self@, p); } }
        s_len(self.as_str())
    }
}
pub trait StrLenX { fn len_v(&self) -> usize; }
impl StrLenX for str { #[verifier::external_body] fn len_v(&self) -> (r: usize) ensures r == blen(self@) { self.len() } }
#[verifier::external_body]
pub fn str_cat(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { a.to_string() + b }

// what becomes of one name
pub enum Ed { Pre, Suf, CutPre, CutSuf }
pub open spec fn edited(a: Seq<char>, e: Ed, t: Seq<char>) -> Seq<char> {
    match e {
        Ed::Pre => t + a, Ed::Suf => a + t,
        Ed::CutPre => if has_prefix(a, t) { a.skip(t.len() as int) } else { a },
        Ed::CutSuf => if has_suffix(a, t) { a.subrange(0, a.len() - t.len()) } else { a },
    }
}
pub open spec fn edited_opt(a: Option<String>, b: Option<String>, e: Ed, t: Seq<char>) -> bool {
    match a { None => b is None, Some(x) => b is Some && b.unwrap()@ == edited(x@, e, t) }
}
pub open spec fn fld_named(a: Field, b: Field, e: Ed, t: Seq<char>) -> bool { ma_shape(b, a) && $but(fld, ma(b), ma(a), name) && ma(b).name@ == edited(ma(a).name@, e, t) }
pub open spec fn reg_named(a: Register, b: Register, e: Ed, t: Seq<char>) -> bool {
    ma_shape(b, a) && $but(reg, ma(b), ma(a), name display_name alternate_register) && ma(b).name@ == edited(ma(a).name@, e, t)
    && edited_opt(ma(a).display_name, ma(b).display_name, e, t) && edited_opt(ma(a).alternate_register, ma(b).alternate_register, e, t)
}
pub open spec fn cl_named(a: Cluster, b: Cluster, e: Ed, t: Seq<char>) -> bool {
    ma_shape(b, a) && $but(cl, ma(b), ma(a), name header_struct_name alternate_cluster) && ma(b).name@ == edited(ma(a).name@, e, t)
    && edited_opt(ma(a).header_struct_name, ma(b).header_struct_name, e, t) && edited_opt(ma(a).alternate_cluster, ma(b).alternate_cluster, e, t)
}
// every direct child register renamed; direct child clusters too when text is cut off
pub open spec fn kids_named(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, e: Ed, x: Seq<char>) -> bool {
    t.len() == s.len() && forall|i: int| #![trigger t[i]] 0 <= i < s.len() ==> match s[i] {
        RegisterCluster::Register(r) => as_Register(t[i]) is Some && reg_named(r, as_Register(t[i]).unwrap(), e, x),
        RegisterCluster::Cluster(c) => if e is CutPre || e is CutSuf { as_Cluster(t[i]) is Some && cl_named(c, as_Cluster(t[i]).unwrap(), e, x) } else { t[i] == s[i] },
    }
}
pub proof fn lemma_star() ensures "*"@ == seq!['*'] { reveal_strlit("*"); assert("*"@ =~= seq!['*']); }
//@fn src/patch/register.rs | RegisterExt for Register | strip_start
//@self Register
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(200)]
//@sub? substr.to_string() + "*" =>> str_cat(substr, "*")
//@sub? .drain(..len) =>> .drain_to_v(len)
//@spec
    requires plain(substr@),
    ensures r is Ok, reg_fields_frame(*final(self_), *old(self_)),
        upd_sel(reg_fields(*old(self_)), reg_fields(*final(self_)), all_p(), |x: Field, y: Field| fld_named(x, y, Ed::CutPre, substr@)),
//@start
    proof { lemma_star();
    axiom_star(substr@); assert(lit(substr@ + seq!['*'])); assert(lit(seq!['*'] + substr@)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> fld_named(*g1_[j], *final(#[trigger] g1_[j]), Ed::CutPre, substr@),
//@end
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | strip_start
//@self $T
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(200)]
//@sub? prefix.to_string() + "*" =>> str_cat(prefix, "*")
//@sub? .drain(..len) =>> .drain_to_v(len)
//@spec
    requires plain(prefix@),
    ensures r is Ok, $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
        kids_named(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), Ed::CutPre, prefix@),
//@start
    proof { lemma_star();
    axiom_star(prefix@); assert(lit(prefix@ + seq!['*'])); assert(lit(seq!['*'] + prefix@)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> reg_named(*g1_[j], *final(#[trigger] g1_[j]), Ed::CutPre, prefix@),
//@loop 2 it2 hoist
    invariant it2.seq() == g2_, forall|j: int| 0 <= j < it2.index() ==> cl_named(*g2_[j], *final(#[trigger] g2_[j]), Ed::CutPre, prefix@),
//@end
//@endeach
//@fn src/patch/register.rs | RegisterExt for Register | strip_end
//@self Register
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(200)]
//@sub? "*".to_string() + substr =>> str_cat("*", substr)
//@sub? .unwrap() =>> .or_panic()
//@spec
    requires plain(substr@),
    ensures r is Ok, reg_fields_frame(*final(self_), *old(self_)),
        upd_sel(reg_fields(*old(self_)), reg_fields(*final(self_)), all_p(), |x: Field, y: Field| fld_named(x, y, Ed::CutSuf, substr@)),
//@start
    proof { lemma_star();
    axiom_star(substr@); assert(lit(substr@ + seq!['*'])); assert(lit(seq!['*'] + substr@)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> fld_named(*g1_[j], *final(#[trigger] g1_[j]), Ed::CutSuf, substr@),
//@end
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | strip_end
//@self $T
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(200)]
//@sub? "*".to_string() + suffix =>> str_cat("*", suffix)
//@sub? .unwrap() =>> .or_panic()
//@spec
    requires plain(suffix@),
    ensures r is Ok, $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
        kids_named(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), Ed::CutSuf, suffix@),
//@start
    proof { lemma_star();
    axiom_star(suffix@); assert(lit(suffix@ + seq!['*'])); assert(lit(seq!['*'] + suffix@)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> reg_named(*g1_[j], *final(#[trigger] g1_[j]), Ed::CutSuf, suffix@),
//@loop 2 it2 hoist
    invariant it2.seq() == g2_, forall|j: int| 0 <= j < it2.index() ==> cl_named(*g2_[j], *final(#[trigger] g2_[j]), Ed::CutSuf, suffix@),
//@end
//@endeach
//@fn src/patch/register.rs | RegisterExt for Register | add_prefix
//@self Register
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(200)]
//@spec
    ensures r is Ok, reg_fields_frame(*final(self_), *old(self_)),
        upd_sel(reg_fields(*old(self_)), reg_fields(*final(self_)), all_p(), |x: Field, y: Field| fld_named(x, y, Ed::Pre, prefix@)),
//@start
    proof {  }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> fld_named(*g1_[j], *final(#[trigger] g1_[j]), Ed::Pre, prefix@),
//@end
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | add_prefix
//@self $T
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(200)]
//@spec
    ensures r is Ok, $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
        kids_named(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), Ed::Pre, prefix@),
//@start
    proof {  }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> reg_named(*g1_[j], *final(#[trigger] g1_[j]), Ed::Pre, prefix@),
//@end
//@endeach
//@fn src/patch/register.rs | RegisterExt for Register | add_suffix
//@self Register
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(200)]
//@spec
    ensures r is Ok, reg_fields_frame(*final(self_), *old(self_)),
        upd_sel(reg_fields(*old(self_)), reg_fields(*final(self_)), all_p(), |x: Field, y: Field| fld_named(x, y, Ed::Suf, suffix@)),
//@start
    proof {  }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> fld_named(*g1_[j], *final(#[trigger] g1_[j]), Ed::Suf, suffix@),
//@end
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | add_suffix
//@self $T
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(200)]
//@spec
    ensures r is Ok, $T_kids_frame(*final(self_), *old(self_)), $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
        kids_named(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), Ed::Suf, suffix@),
//@start
    proof {  }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> reg_named(*g1_[j], *final(#[trigger] g1_[j]), Ed::Suf, suffix@),
//@end
//@endeach
}
fn main(){}
