//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_clone.rs p_fmt.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_block.rs p_spec.rs
//@import p_coll.rs
//@wrap starts_with or_else as_deref
//@methods Register: present_fields
fn main(){}
verus! {
//@type src/patch/mod.rs | VAL_LVL
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExRPath(svd_parser::expand::RegisterPath);
pub type RegisterPath = svd_parser::expand::RegisterPath;
// ---- SPECIFICATION ----
pub open spec fn chosen(c: Field, q: Seq<char>) -> bool { match c { MaybeArray::Single(x) => matches(x.name@, q), _ => false } }
pub open spec fn info(c: Field) -> FieldInfo { ma(c) }
// the selected ones, the others
pub open spec fn picked(s: Seq<Field>, q: Seq<char>, n: int) -> Seq<FieldInfo> decreases n { if n <= 0 { Seq::empty() } else if chosen(s[n - 1], q) { picked(s, q, n - 1).push(info(s[n - 1])) } else { picked(s, q, n - 1) } }
pub open spec fn left(s: Seq<Field>, q: Seq<char>, n: int) -> Seq<Field> decreases n { if n <= 0 { Seq::empty() } else if chosen(s[n - 1], q) { left(s, q, n - 1) } else { left(s, q, n - 1).push(s[n - 1]) } }
pub open spec fn first_chosen(s: Seq<Field>, q: Seq<char>, k: int) -> bool { 0 <= k < s.len() && chosen(s[k], q) && forall|j: int| 0 <= j < k ==> !chosen(#[trigger] s[j], q) }
// what stands for the i-th element in its name: counted, or what stands at the pattern's place
pub open spec fn counted(v: Seq<String>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i]@ == fdec(i as nat) }
pub open spec fn by_name(t: Seq<FieldInfo>, q: Seq<char>, v: Seq<String>) -> bool { ind(q) is Some && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> is_cut(t[i].name@, ind(q).unwrap().0, blen(t[i].name@) - ind(q).unwrap().1, v[i]@) }
// a name made of the text before the pattern, `%s` and the text after it gives each name back
pub open spec fn gives_back(t: Seq<FieldInfo>, q: Seq<char>, zero: bool, v: Seq<String>, n: Seq<char>) -> bool {
    exists|p: Seq<char>, s: Seq<char>| n == #[trigger] (p + "%s"@ + s) && has_prefix(q, p) && has_suffix(q, s)
        && (forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> has_prefix(t[i].name@, p) && has_suffix(t[i].name@, s) && (!zero ==> t[i].name@ == p + v[i]@ + s)) }
pub open spec fn evenly(t: Seq<FieldInfo>, inc: int) -> bool { forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i].bit_range.offset == t[0].bit_range.offset + i * inc }
pub open spec fn array_of(t: Seq<FieldInfo>, q: Seq<char>, h: Hash, y: Field) -> bool {
    match y { MaybeArray::Single(_) => false, MaybeArray::Array(x, d) => {
        let zero = yget(h, "_start_from_zero"@) is Some;
        &&& d.dim == t.len() && evenly(t, d.dim_increment as int)
        &&& d.dim_index is Some && d.dim_index.unwrap()@.len() == t.len() && (if zero { counted(d.dim_index.unwrap()@) } else { by_name(t, q, d.dim_index.unwrap()@) })
        &&& match yget(h, "name"@) { Some(n) => ystr(n) == Some(x.name@), None => gives_back(t, q, zero, d.dim_index.unwrap()@, x.name@) }
        &&& $but(fld, x, t[0], name description)
    } }
}
// nothing is selected, or the selected ones became an array at the place of the first
pub open spec fn collected(s: Seq<Field>, o: Seq<Field>, q: Seq<char>, h: Hash) -> bool {
    let t0 = picked(s, q, s.len() as int);
    if t0.len() == 0 { o == s } else {
        exists|t: Seq<FieldInfo>, y: Field, k: int| t.len() == t0.len() && t.to_multiset() == t0.to_multiset() && #[trigger] array_of(t, q, h, y) && #[trigger] first_chosen(s, q, k) && k <= left(s, q, s.len() as int).len() && o == left(s, q, s.len() as int).insert(k, y) }
}
// ---- PROOF ----
pub open spec fn by_addr(t: Seq<FieldInfo>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).bit_range.offset <= (#[trigger] t[j]).bit_range.offset }
pub broadcast proof fn lemma_by_addr<F: Fn(&FieldInfo) -> u32>(f: F, s: Seq<FieldInfo>, k: Seq<u32>)
    requires #[trigger] told_e(f, s, k), ascends(k), forall|x: &FieldInfo, y: u32| f.ensures((x,), y) ==> y == x.bit_range.offset
    ensures by_addr(s)
{ assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).bit_range.offset <= (#[trigger] s[j]).bit_range.offset by { assert(k[i] <= k[j]); } }
pub proof fn lemma_none(s: Seq<Field>, q: Seq<char>, n: int) requires 0 <= n <= s.len() ensures picked(s, q, n).len() == 0 ==> left(s, q, n) == s.take(n), picked(s, q, n).len() + left(s, q, n).len() == n decreases n
{ if n > 0 { lemma_none(s, q, n - 1); assert(s.take(n - 1).push(s[n - 1]) =~= s.take(n)); } else { assert(s.take(0) =~= Seq::empty()); } }
pub proof fn lemma_evenly(t: Seq<FieldInfo>, k: Seq<u32>, inc: int, n: int)
    requires 0 <= n < t.len(), k.len() == t.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == t[i].bit_range.offset, forall|i: int| 0 <= i < k.len() - 1 ==> #[trigger] k[i + 1] - k[i] == inc
    ensures t[n].bit_range.offset == t[0].bit_range.offset + n * inc decreases n
{ if n > 0 { lemma_evenly(t, k, inc, n - 1); assert(k[n - 1 + 1] - k[n - 1] == inc); assert(n * inc == (n - 1) * inc + inc) by (nonlinear_arith); assert(k[n] == t[n].bit_range.offset); assert(k[n - 1] == t[n - 1].bit_range.offset); } else { assert(0 * inc == 0); } }
pub proof fn lemma_is_even(t: Seq<FieldInfo>, k: Seq<u32>, inc: int)
    requires k.len() == t.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == t[i].bit_range.offset, forall|i: int| 0 <= i < k.len() - 1 ==> #[trigger] k[i + 1] - k[i] == inc
    ensures evenly(t, inc) { assert forall|n: int| #![trigger t[n]] 0 <= n < t.len() implies t[n].bit_range.offset == t[0].bit_range.offset + n * inc by { lemma_evenly(t, k, inc, n); } }
pub proof fn lemma_gives(t: Seq<FieldInfo>, q: Seq<char>, zero: bool, v: Seq<String>, p: Seq<char>, s: Seq<char>)
    requires has_prefix(q, p), has_suffix(q, s), forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> has_prefix(t[i].name@, p) && has_suffix(t[i].name@, s) && (!zero ==> t[i].name@ == p + v[i]@ + s)
    ensures gives_back(t, q, zero, v, p + "%s"@ + s) {}
#[verifier::external_body] pub fn Register__present_fields(self_: &Register) -> String { unimplemented!() }
//@fn src/patch/register.rs | RegisterExt for Register | collect_fields_in_array
//@self Register
//@fmt
//@slices
//@attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(100)]
//@sub f.name[li..f.name.len() - ri] =>> f.name.cut_back_v(li, ri)
//@spec
    requires match ma(*old(self_)).fields { Some(v) => v@.len() <= u32::MAX, None => true }
    ensures $but(reg, ma(*final(self_)), ma(*old(self_)), fields), ma_shape(*final(self_), *old(self_)),
        r is Ok ==> match (ma(*old(self_)).fields, ma(*final(self_)).fields) {
            (None, None) => sel_opt(fspec@),
            (Some(v), Some(w)) => collected(v@, w@, sel(fspec@), *fmod) && (picked(v@, sel(fspec@), v@.len() as int).len() == 0 ==> sel_opt(fspec@)),
            _ => false },
//@start
    hide(is_cut); hide(has_prefix); hide(has_suffix); hide(gives_back); hide(evenly); hide(blen);
    broadcast use {lemma_by_addr, lemma_after, lemma_assoc};
    let ghost f0_ = fspec;
//@before "let mut fields = Vec::new();"
    let ghost s_ = fs@; let ghost q_ = sel(f0_@); let ghost mut n_ = 0int;
    proof { assert(s_.skip(0) =~= s_); assert(left(s_, q_, 0) + s_ =~= s_); }
//@loop 1
    invariant n_ == i + fields@.len(), 0 <= n_ <= s_.len(), fs@ == left(s_, q_, n_) + s_.skip(n_), fields@ == picked(s_, q_, n_), i == left(s_, q_, n_).len(),
        fields@.len() == 0 ==> place == usize::MAX, fields@.len() > 0 ==> first_chosen(s_, q_, place as int) && place <= i,
        fields@.len() == 0 ==> forall|j: int| 0 <= j < n_ ==> !chosen(#[trigger] s_[j], q_),
//@loop-start 1
    proof { assert(fs@[i as int] == s_[n_]); }
//@loop-end 1
    proof { n_ = n_ + 1; assert(fs@ =~= left(s_, q_, n_) + s_.skip(n_)); }
//@after-loop 1
    proof { lemma_none(s_, q_, n_); assert(n_ == s_.len()); assert(s_.skip(n_) =~= Seq::empty()); assert(fs@ =~= left(s_, q_, n_)); assert(s_.take(n_) =~= s_); }
//@after "fields.sort_by_key(|f| f.bit_range.offset);"
    let ghost t_ = fields@; let ghost t0_ = picked(s_, q_, s_.len() as int);
//@before "fields[0].name = "
    proof { assert forall|i: int| 0 <= i < offsets@.len() implies #[trigger] offsets@[i] == t_[i].bit_range.offset by {} lemma_is_even(t_, offsets@, dim_increment as int); }
    let ghost z_ = yget(*fmod, "_start_from_zero"@) is Some; let ghost v_ = dim_index@;
    proof { assert(if z_ { counted(v_) } else { by_name(t_, q_, v_) }); }
//@before "format!("{prefix}%s{suffix}")"
    proof {
        lemma_front(q_, li as int, prefix@); lemma_back(q_, blen(q_) - ri, suffix@);
        assert forall|i: int| #![trigger t_[i]] 0 <= i < t_.len() implies has_prefix(t_[i].name@, prefix@) && has_suffix(t_[i].name@, suffix@) && (!z_ ==> t_[i].name@ == prefix@ + v_[i]@ + suffix@) by {
            if !z_ { lemma_fit(t_[i].name@, prefix@, suffix@, v_[i]@); } }
        lemma_gives(t_, q_, z_, v_, prefix@, suffix@); }
//@before "let finfo ="
    proof { match yget(*fmod, "name"@) { Some(n) => { assert(ystr(n) == Some(fields@[0].name@)); }, None => { assert(gives_back(t_, q_, z_, v_, fields@[0].name@)); } } }
//@before "fs.insert(place"
    let ghost y_ = field;
    proof { match y_ { MaybeArray::Array(x, d) => { assert(d.dim == t_.len()); assert(d.dim_index is Some && d.dim_index.unwrap()@ == v_); assert(v_.len() == t_.len()); assert($but(fld, x, t_[0], name description)); }, _ => { assert(false); } }
        assert(array_of(t_, q_, *fmod, y_)); assert(first_chosen(s_, q_, place as int)); }
//@closure 1 |$1: &FieldInfo| -> (k: u32)
    ensures k == $1.bit_range.offset
//@closure 2 |$1: usize| -> (t: String)
    ensures t@ == fdec($1 as nat)
//@closure 3 |$1: &FieldInfo| -> (t: String)
    ensures is_cut($1.name@, li as int, blen($1.name@) - ri, t@)
//@closure 4 |$1: &FieldInfo| -> (k: u32)
    ensures k == $1.bit_range.offset
//@closure 5 |$1: &&FieldInfo| -> (b: bool)
    ensures b == !(has_prefix($1.name@, prefix@) && has_suffix($1.name@, suffix@))
//@end
}
