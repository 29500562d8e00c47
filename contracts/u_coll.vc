//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_clone.rs p_fmt.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_block.rs p_spec.rs
//@use p_coll.rs
//@wrap starts_with or_else as_deref
fn main(){}
verus! {
//@type src/patch/mod.rs | EnumAutoDerive
//@type src/patch/mod.rs | Config
//@type src/patch/mod.rs | VAL_LVL
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Config) { unimplemented!() } }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBPath(svd_parser::expand::BlockPath);
pub type BlockPath = svd_parser::expand::BlockPath;
// ---- SPECIFICATION ----
pub open spec fn chosen(c: RegisterCluster, q: Seq<char>) -> bool { match c { RegisterCluster::Register(MaybeArray::Single(x)) => matches(x.name@, q), _ => false } }
pub open spec fn info(c: RegisterCluster) -> RegisterInfo { ma(as_Register(c).unwrap()) }
// the selected ones, the others
pub open spec fn picked(s: Seq<RegisterCluster>, q: Seq<char>, n: int) -> Seq<RegisterInfo> decreases n { if n <= 0 { Seq::empty() } else if chosen(s[n - 1], q) { picked(s, q, n - 1).push(info(s[n - 1])) } else { picked(s, q, n - 1) } }
pub open spec fn left(s: Seq<RegisterCluster>, q: Seq<char>, n: int) -> Seq<RegisterCluster> decreases n { if n <= 0 { Seq::empty() } else if chosen(s[n - 1], q) { left(s, q, n - 1) } else { left(s, q, n - 1).push(s[n - 1]) } }
pub open spec fn first_chosen(s: Seq<RegisterCluster>, q: Seq<char>, k: int) -> bool { 0 <= k < s.len() && chosen(s[k], q) && forall|j: int| 0 <= j < k ==> !chosen(#[trigger] s[j], q) }
// what stands for the i-th element in its name: counted, or what stands at the pattern's place
pub open spec fn counted(v: Seq<String>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i]@ == fdec(i as nat) }
pub open spec fn by_name(t: Seq<RegisterInfo>, q: Seq<char>, v: Seq<String>) -> bool { ind(q) is Some && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> is_cut(t[i].name@, ind(q).unwrap().0, blen(t[i].name@) - ind(q).unwrap().1, v[i]@) }
// a name made of the text before the pattern, `%s` and the text after it gives each name back
pub open spec fn gives_back(t: Seq<RegisterInfo>, q: Seq<char>, zero: bool, v: Seq<String>, n: Seq<char>) -> bool {
    exists|p: Seq<char>, s: Seq<char>| n == #[trigger] (p + "%s"@ + s) && has_prefix(q, p) && has_suffix(q, s)
        && (forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> has_prefix(t[i].name@, p) && has_suffix(t[i].name@, s) && (!zero ==> t[i].name@ == p + v[i]@ + s)) }
pub open spec fn evenly(t: Seq<RegisterInfo>, inc: int) -> bool { forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i].address_offset == t[0].address_offset + i * inc }
pub open spec fn array_of(t: Seq<RegisterInfo>, q: Seq<char>, h: Hash, y: Register) -> bool {
    match y { MaybeArray::Single(_) => false, MaybeArray::Array(x, d) => {
        let zero = yget(h, "_start_from_zero"@) is Some;
        &&& d.dim == t.len() && d.dim_increment > 0 && evenly(t, d.dim_increment as int)
        &&& forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> mask(t[i]) == mask(t[0])
        &&& d.dim_index is Some && d.dim_index.unwrap()@.len() == t.len() && (if zero { counted(d.dim_index.unwrap()@) } else { by_name(t, q, d.dim_index.unwrap()@) })
        &&& match yget(h, "name"@) { Some(n) => ystr(n) == Some(x.name@), None => gives_back(t, q, zero, d.dim_index.unwrap()@, x.name@) }
        &&& $but(reg, x, t[0], name description display_name fields)
    } }
}
// nothing is selected, or the selected ones became an array at the place of the first
pub open spec fn collected(s: Seq<RegisterCluster>, o: Seq<RegisterCluster>, q: Seq<char>, h: Hash) -> bool {
    let t0 = picked(s, q, s.len() as int);
    if t0.len() == 0 { o == s } else {
        exists|t: Seq<RegisterInfo>, y: Register, k: int| t.len() == t0.len() && t.to_multiset() == t0.to_multiset() && #[trigger] array_of(t, q, h, y) && #[trigger] first_chosen(s, q, k) && k <= left(s, q, s.len() as int).len() && o == left(s, q, s.len() as int).insert(k, RegisterCluster::Register(y)) }
}
// ---- PROOF ----
pub open spec fn by_addr(t: Seq<RegisterInfo>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).address_offset <= (#[trigger] t[j]).address_offset }
pub broadcast proof fn lemma_by_addr<F: Fn(&RegisterInfo) -> u32>(f: F, s: Seq<RegisterInfo>, k: Seq<u32>)
    requires #[trigger] told_e(f, s, k), ascends(k), forall|x: &RegisterInfo, y: u32| f.ensures((x,), y) ==> y == x.address_offset
    ensures by_addr(s)
{ assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).address_offset <= (#[trigger] s[j]).address_offset by { assert(k[i] <= k[j]); } }
pub proof fn lemma_none(s: Seq<RegisterCluster>, q: Seq<char>, n: int) requires 0 <= n <= s.len() ensures picked(s, q, n).len() == 0 ==> left(s, q, n) == s.take(n), picked(s, q, n).len() + left(s, q, n).len() == n decreases n
{ if n > 0 { lemma_none(s, q, n - 1); assert(s.take(n - 1).push(s[n - 1]) =~= s.take(n)); } else { assert(s.take(0) =~= Seq::empty()); } }
pub proof fn lemma_small(s: Seq<RegisterCluster>, q: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| #![trigger s[i]] 0 <= i < s.len() && chosen(s[i], q) ==> small(info(s[i]))
    ensures forall|i: int| #![trigger picked(s, q, n)[i]] 0 <= i < picked(s, q, n).len() ==> small(picked(s, q, n)[i]) decreases n
{ if n > 0 { lemma_small(s, q, n - 1); if chosen(s[n - 1], q) { assert(small(info(s[n - 1]))); let a = picked(s, q, n - 1); assert forall|i: int| #![trigger picked(s, q, n)[i]] 0 <= i < picked(s, q, n).len() implies small(picked(s, q, n)[i]) by { if i < a.len() { assert(small(a[i])); } } } } }
pub proof fn lemma_evenly(t: Seq<RegisterInfo>, k: Seq<u32>, inc: int, n: int)
    requires 0 <= n < t.len(), k.len() == t.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == t[i].address_offset, forall|i: int| 0 <= i < k.len() - 1 ==> #[trigger] k[i + 1] - k[i] == inc
    ensures t[n].address_offset == t[0].address_offset + n * inc decreases n
{ if n > 0 { lemma_evenly(t, k, inc, n - 1); assert(k[n - 1 + 1] - k[n - 1] == inc); assert(n * inc == (n - 1) * inc + inc) by (nonlinear_arith); assert(k[n] == t[n].address_offset); assert(k[n - 1] == t[n - 1].address_offset); } else { assert(0 * inc == 0); } }
pub proof fn lemma_is_even(t: Seq<RegisterInfo>, k: Seq<u32>, inc: int)
    requires k.len() == t.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == t[i].address_offset, forall|i: int| 0 <= i < k.len() - 1 ==> #[trigger] k[i + 1] - k[i] == inc
    ensures evenly(t, inc) { assert forall|n: int| #![trigger t[n]] 0 <= n < t.len() implies t[n].address_offset == t[0].address_offset + n * inc by { lemma_evenly(t, k, inc, n); } }
pub proof fn lemma_gives(t: Seq<RegisterInfo>, q: Seq<char>, zero: bool, v: Seq<String>, p: Seq<char>, s: Seq<char>)
    requires has_prefix(q, p), has_suffix(q, s), forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> has_prefix(t[i].name@, p) && has_suffix(t[i].name@, s) && (!zero ==> t[i].name@ == p + v[i]@ + s)
    ensures gives_back(t, q, zero, v, p + "%s"@ + s) {}
#[verifier::external_body] pub fn Register__process(self_: &mut Register, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult)
    ensures $but(reg, ma(*final(self_)), ma(*old(self_)), fields), ma_shape(*final(self_), *old(self_)) { unimplemented!() }
//@fn src/patch/peripheral.rs | collect_in_array
//@fmt
//@slices
//@attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(100)]
//@sub r.name[li..r.name.len() - ri] =>> r.name.cut_back_v(li, ri)
//@sub reg.process( =>> Register__process(&mut reg, 
//@sub map(RegisterInfo::get_bitmask) =>> map_v(|r: &RegisterInfo| -> (m: u64) requires small(*r) ensures m == mask(*r) { get_bitmask(r) })
//@spec
    requires forall|i: int| #![trigger old(regs)@[i]] 0 <= i < old(regs)@.len() && chosen(old(regs)@[i], sel(rspec@)) ==> small(info(old(regs)@[i])), old(regs)@.len() <= u32::MAX
    ensures r is Ok ==> collected(old(regs)@, final(regs)@, sel(rspec@), *rmod) && (picked(old(regs)@, sel(rspec@), old(regs)@.len() as int).len() == 0 ==> sel_opt(rspec@)),
//@start
    hide(is_cut); hide(has_prefix); hide(has_suffix); hide(gives_back); hide(evenly); hide(mask); hide(blen);
    broadcast use {lemma_by_addr, lemma_after, lemma_assoc};
    let ghost s_ = regs@; let ghost q_ = sel(rspec@); let ghost mut n_ = 0int;
    proof { assert(s_.skip(0) =~= s_); assert(left(s_, q_, 0) + s_ =~= s_); }
//@loop 1
    invariant n_ == i + registers@.len(), 0 <= n_ <= s_.len(), regs@ == left(s_, q_, n_) + s_.skip(n_), registers@ == picked(s_, q_, n_), i == left(s_, q_, n_).len(),
        registers@.len() == 0 ==> place == usize::MAX, registers@.len() > 0 ==> first_chosen(s_, q_, place as int) && place <= i,
        registers@.len() == 0 ==> forall|j: int| 0 <= j < n_ ==> !chosen(#[trigger] s_[j], q_),
//@loop-start 1
    proof { assert(regs@[i as int] == s_[n_]); }
//@loop-end 1
    proof { n_ = n_ + 1; assert(regs@ =~= left(s_, q_, n_) + s_.skip(n_)); }
//@after-loop 1
    proof { lemma_none(s_, q_, n_); assert(n_ == s_.len()); assert(s_.skip(n_) =~= Seq::empty()); assert(regs@ =~= left(s_, q_, n_)); assert(s_.take(n_) =~= s_); }
//@after "registers.sort_by_key(|r| r.address_offset);"
    let ghost t_ = registers@; let ghost t0_ = picked(s_, q_, s_.len() as int);
    proof { lemma_small(s_, q_, s_.len() as int); lemma_same_elems(t_, t0_); assert forall|i: int| #![trigger t_[i]] 0 <= i < t_.len() implies small(t_[i]) by { let j = choose|j: int| 0 <= j < t0_.len() && t0_[j] == t_[i]; } }
//@before "let bitmasks = registers"
    proof { assert forall|i: int| 0 <= i < offsets@.len() implies #[trigger] offsets@[i] == t_[i].address_offset by {} lemma_is_even(t_, offsets@, dim_increment as int); }
//@before "registers[0].name = "
    proof { assert forall|i: int| #![trigger t_[i]] 0 <= i < t_.len() implies mask(t_[i]) == mask(t_[0]) by { assert(bitmasks@[i] == mask(t_[i])); assert(bitmasks@[0] == mask(t_[0])); assert(bitmasks@[i] == bitmasks@[0]); } }
    let ghost z_ = yget(*rmod, "_start_from_zero"@) is Some; let ghost v_ = dim_index@;
    proof { assert(if z_ { counted(v_) } else { by_name(t_, q_, v_) }); }
//@before "format!("{prefix}%s{suffix}")"
    proof {
        lemma_front(q_, li as int, prefix@); lemma_back(q_, blen(q_) - ri, suffix@);
        assert forall|i: int| #![trigger t_[i]] 0 <= i < t_.len() implies has_prefix(t_[i].name@, prefix@) && has_suffix(t_[i].name@, suffix@) && (!z_ ==> t_[i].name@ == prefix@ + v_[i]@ + suffix@) by {
            if !z_ { lemma_fit(t_[i].name@, prefix@, suffix@, v_[i]@); } }
        lemma_gives(t_, q_, z_, v_, prefix@, suffix@); }
//@before "let rinfo ="
    proof { match yget(*rmod, "name"@) { Some(n) => { assert(ystr(n) == Some(registers@[0].name@)); }, None => { assert(gives_back(t_, q_, z_, v_, registers@[0].name@)); } } }
//@before "regs.insert(place"
    let ghost y_ = reg;
    proof { match y_ { MaybeArray::Array(x, d) => { assert(d.dim == t_.len()); assert(d.dim_increment > 0); assert(d.dim_index is Some && d.dim_index.unwrap()@ == v_); assert(v_.len() == t_.len()); assert($but(reg, x, t_[0], name description display_name fields)); }, _ => { assert(false); } }
        assert(array_of(t_, q_, *rmod, y_)); assert(first_chosen(s_, q_, place as int)); }
//@closure 1 |$1: &RegisterInfo| -> (k: u32)
    ensures k == $1.address_offset
//@closure 2 |$1: usize| -> (t: String)
    ensures t@ == fdec($1 as nat)
//@closure 3 |$1: &RegisterInfo| -> (t: String)
    ensures is_cut($1.name@, li as int, blen($1.name@) - ri, t@)
//@closure 4 |$1: &RegisterInfo| -> (k: u32)
    ensures k == $1.address_offset
//@closure 7 |$1: &u64| -> (b: bool)
    ensures b == (*$1 == bitmasks@[0])
//@closure 8 |$1: &&RegisterInfo| -> (b: bool)
    ensures b == !(has_prefix($1.name@, prefix@) && has_suffix($1.name@, suffix@))
//@end
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | collect_in_array
//@name $T__collect_in_array
//@self $T
//@spec
    requires forall|i: int| #![trigger kidz($T_kids(*old(self_)))[i]] 0 <= i < kidz($T_kids(*old(self_))).len() && chosen(kidz($T_kids(*old(self_)))[i], sel(rspec@)) ==> small(info(kidz($T_kids(*old(self_)))[i])), kidz($T_kids(*old(self_))).len() <= u32::MAX
    ensures $T_kids_frame(*final(self_), *old(self_)),
        match $T_kids(*old(self_)) { None => *final(self_) == *old(self_) && (r is Ok <==> sel_opt(rspec@)),
            Some(k) => r is Ok ==> $T_kids(*final(self_)) is Some && collected(k, $T_kids(*final(self_)).unwrap(), sel(rspec@), *rmod) && (picked(k, sel(rspec@), k.len() as int).len() == 0 ==> sel_opt(rspec@)) },
//@end
//@endeach
}
