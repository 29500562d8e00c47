//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_wc.rs
//@use p_text.rs
//@import p_make.rs p_block.rs p_iter.rs p_kids.rs p_find.rs p_spec.rs
//@wrap get_or_insert
//@use p_clone.rs p_path.rs p_regs.rs
verus! {
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | derive_register::make_path
//@sub (parts.next(), parts.next(), parts.next()) =>> next3(&mut parts)
//@spec
    ensures r@ == reg_source(dpath@, *bpath)
//@start
    broadcast use {lemma_sibling, lemma_splits_len}; proof { reveal_strlit("."); }
//@end
pub open spec fn derive_info(y: Yaml, p: BlockPath, m: RegB, d: Option<DimElementBuilder>) -> bool {
    &&& source(y) is Some && tx(m.derived_from) == Some(reg_source(source(y).unwrap(), p))
    &&& match y {
        Yaml::String(s) => d is None && reg_b_none(RegB { derived_from: None, ..m }),
        Yaml::Hash(h) => dim_of(h, d) && exists|m0: RegB| #[trigger] reg_made(h, Some(&p), m0) && m == (RegB { derived_from: m.derived_from, ..m0 }),
        _ => false }
}
pub open spec fn reg_derived(m: RegB, d: Option<DimElementBuilder>) -> spec_fn(Register, Register) -> bool { |a: Register, b: Register| dim_shape(a, d, b) && reg_mod(ma(a), m, ma(b)) }
pub open spec fn reg_new(n: Seq<char>, m: RegB, d: Option<DimElementBuilder>, f: Register) -> bool { dim_new(d, f) && ma(f).name@ == n && reg_built(RegB { name: Some(ma(f).name), ..m }, ma(f)) }
// the targets
pub open spec fn targets(s: Seq<RegisterCluster>, a: Seq<RegisterCluster>, spec: Seq<char>, m: RegB, d: Option<DimElementBuilder>) -> bool {
    if any_Register(s, named(sel(spec))) { upd_Register(s, a, named(sel(spec)), reg_derived(m, d)) }
    else if sel_opt(spec) { a == s } else { a.len() == s.len() + 1 && a == s.push(a.last()) && as_Register(a.last()) is Some && reg_new(sel(spec), m, d, as_Register(a.last()).unwrap()) }
}
pub open spec fn drv(n: Seq<char>) -> spec_fn(Register) -> bool { |r: Register| match ma(r).derived_from { Some(d) => d@ == n, None => false } }
// derived from a register that was a target
pub open spec fn is_target(s: Seq<RegisterCluster>, spec: Seq<char>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && as_Register(#[trigger] s[i]) is Some && as_Register(s[i]).unwrap().nm() == n && matches(n, sel(spec)) }
pub open spec fn in_list(v: Seq<String>, k: int, n: Seq<char>) -> bool { exists|j: int| 0 <= j < k && (#[trigger] v[j])@ == n }
pub open spec fn repointed(x: Register, y: Register, p: bool, to: Seq<char>) -> bool {
    if p { ma_shape(y, x) && $but(reg, ma(y), ma(x), derived_from) && drv(to)(y) } else { y == x }
}
pub open spec fn dep(x: Register) -> Option<Seq<char>> { tx(ma(x).derived_from) }
pub open spec fn repointed_t(a: Seq<RegisterCluster>, t: Seq<RegisterCluster>, s: Seq<RegisterCluster>, spec: Seq<char>, to: Seq<char>) -> bool {
    t.len() == a.len() && forall|i: int| #![trigger t[i]] #![trigger a[i]] 0 <= i < a.len() ==> match as_Register(a[i]) { None => t[i] == a[i],
        Some(x) => as_Register(t[i]) is Some && repointed(x, as_Register(t[i]).unwrap(), dep(x) is Some && is_target(s, spec, dep(x).unwrap()), to) }
}
pub open spec fn repointed_l(a: Seq<RegisterCluster>, t: Seq<RegisterCluster>, v: Seq<String>, k: int, to: Seq<char>) -> bool {
    t.len() == a.len() && forall|i: int| #![trigger t[i]] #![trigger a[i]] 0 <= i < a.len() ==> match as_Register(a[i]) { None => t[i] == a[i],
        Some(x) => as_Register(t[i]) is Some && repointed(x, as_Register(t[i]).unwrap(), dep(x) is Some && in_list(v, k, dep(x).unwrap()), to) }
}
// one more name of the list
proof fn lemma_step(a: Seq<RegisterCluster>, t: Seq<RegisterCluster>, u: Seq<RegisterCluster>, v: Seq<String>, k: int, to: Seq<char>)
    requires repointed_l(a, t, v, k, to), 0 <= k < v.len(), upd_Register(t, u, drv(v[k]@), |x: Register, y: Register| repointed(x, y, true, to))
    ensures repointed_l(a, u, v, k + 1, to)
{
    assert forall|n: Seq<char>| in_list(v, k + 1, n) == (in_list(v, k, n) || n == v[k]@) by {
        if in_list(v, k, n) { let j = choose|j: int| 0 <= j < k && (#[trigger] v[j])@ == n; assert(v[j]@ == n); }
        if n == v[k]@ { assert(v[k]@ == n); }
        if in_list(v, k + 1, n) { let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] v[j])@ == n; if j < k { assert(v[j]@ == n); } }
    }
    assert forall|i: int| #![trigger u[i]] #![trigger a[i]] 0 <= i < a.len() implies (match as_Register(a[i]) { None => u[i] == a[i],
        Some(x) => as_Register(u[i]) is Some && repointed(x, as_Register(u[i]).unwrap(), dep(x) is Some && in_list(v, k + 1, dep(x).unwrap()), to) }) by { assert(t[i] == t[i]); assert(u[i] == u[i]); }
}
// the names noted are those of the targets
proof fn lemma_found(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, v: Seq<&mut Register>, f: Seq<String>, spec: Seq<char>)
    requires refs_Register(s, t, v, named(sel(spec))), f.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> (#[trigger] f[j])@ == (*v[j]).nm()
    ensures forall|n: Seq<char>| in_list(f, f.len() as int, n) == is_target(s, spec, n)
{
    let p = named::<Register>(sel(spec));
    assert forall|n: Seq<char>| in_list(f, f.len() as int, n) == is_target(s, spec, n) by {
        if in_list(f, f.len() as int, n) { let j = choose|j: int| 0 <= j < f.len() && (#[trigger] f[j])@ == n; lemma_nth(s, sel_Register(p), s.len() as int, j); let i = nth_sel(s, sel_Register(p), j); assert(t[i] == t[i]); assert(as_Register(s[i]).unwrap().nm() == n); }
        if is_target(s, spec, n) { let i = choose|i: int| 0 <= i < s.len() && as_Register(#[trigger] s[i]) is Some && as_Register(s[i]).unwrap().nm() == n && matches(n, sel(spec)); assert(t[i] == t[i]); let c = cnt(s, sel_Register(p), i); assert(f[c]@ == n); }
    }
}
proof fn lemma_end(a: Seq<RegisterCluster>, t: Seq<RegisterCluster>, s: Seq<RegisterCluster>, spec: Seq<char>, to: Seq<char>, f: Seq<String>)
    requires repointed_l(a, t, f, f.len() as int, to), forall|n: Seq<char>| in_list(f, f.len() as int, n) == is_target(s, spec, n)
    ensures repointed_t(a, t, s, spec, to)
{ }
proof fn lemma_begin(a: Seq<RegisterCluster>, f: Seq<String>, to: Seq<char>) ensures repointed_l(a, a, f, 0, to) { }
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | RegisterBlockExt for $T | get_reg
//@self $T
//@sig pub fn $T__get_reg<'a>(self_: &'a $T, name: &str) -> (r: Option<&'a Register>)
//@sub self.get_register(name) =>> get_register_$T(self_, name)
//@spec
    ensures match r { None => !has_Register(kidz($T_kids(*self_)), name@), Some(x) => exists|k: int| #[trigger] at_Register(kidz($T_kids(*self_)), name@, k) && as_Register(kidz($T_kids(*self_))[k]) == Some(*x) },
//@end
// TRUSTED (svd-rs): the first register of that name
#[verifier::external_body] pub fn get_register_$T<'a>(p: &'a $T, name: &str) -> (r: Option<&'a Register>)
    ensures match r { None => !has_Register(kidz($T_kids(*p)), name@), Some(x) => exists|k: int| #[trigger] at_Register(kidz($T_kids(*p)), name@, k) && as_Register(kidz($T_kids(*p))[k]) == Some(*x) }
{ unimplemented!() }
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | derive_register
//@self $T
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(100)]
//@sub? super::check_dimable_name =>> check_dimable_name
//@sub? .collect::<Vec<_>>() =>>
//@sub .filter( =>> .filter_g(Ghost(drv(rname@)), 
//@spec
    ensures source(*rderive) is None ==> r is Err,
        source(*rderive) is Some && !source(*rderive).unwrap().contains('.') && !has_Register(kidz($T_kids(*old(self_))), source(*rderive).unwrap()) ==> r is Err,
        r is Ok ==> $T_kids_frame(*final(self_), *old(self_)) && exists|m: RegB, d: Option<DimElementBuilder>, a: Seq<RegisterCluster>|
            #[trigger] derive_info(*rderive, *bpath, m, d) && #[trigger] targets(kidz($T_kids(*old(self_))), a, rspec@, m, d)
            && repointed_t(a, kidz($T_kids(*final(self_))), kidz($T_kids(*old(self_))), rspec@, reg_source(source(*rderive).unwrap(), *bpath)),
//@closure 3 |$1: &&mut Register| -> (b: bool)
    ensures b == mref_p(*$1, drv(rname@))
//@start
    broadcast use {lemma_none_Register, lemma_filt_Register}; proof { axiom_string_eq(); }
    let ghost s0_ = kidz($T_kids(*self_)); let ghost spec_ = rspec@; let ghost y_ = *rderive; let ghost p_ = named::<Register>(sel(spec_));
//@before "let rtags"
    let ghost m_ = reg_b(info); let ghost d_ = dim; let ghost from_ = rderive@;
    proof { assert(derive_info(y_, *bpath, m_, d_)); assert(source(y_) == Some(from_)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, sv(found).len() == it.index(),
        forall|j: int| 0 <= j < it.index() ==> reg_derived(m_, d_)(*g1_[j], *final(#[trigger] g1_[j])) && sv(found)[j]@ == (*g1_[j]).nm(),
//@after-loop 1
    let ghost mid_ = kidz($T_kids(*self_));
    proof { lemma_found(s0_, mid_, g1_, sv(found), spec_); assert(upd_Register(s0_, mid_, p_, reg_derived(m_, d_))); }
//@before-loop 2
    let ghost a_ = kidz($T_kids(*self_)); let ghost found_ = sv(found);
    proof {
        if any_Register(s0_, p_) { assert(upd_Register(s0_, a_, p_, reg_derived(m_, d_))); } else if !sel_opt(spec_) { assert(a_ =~= s0_.push(a_.last())); }
        assert(targets(s0_, a_, spec_, m_, d_));
        assert(forall|n: Seq<char>| in_list(found_, found_.len() as int, n) == is_target(s0_, spec_, n));
        lemma_begin(a_, found_, reg_source(from_, *bpath));
    }
//@loop 2 it2
    invariant it2.seq() == found_, $T_kids_frame(*self_, *old(self_)), repointed_l(a_, kidz($T_kids(*self_)), found_, it2.index(), reg_source(from_, *bpath)),
//@before-loop 3
    let ghost t_ = kidz($T_kids(*self_));
//@after-loop 3
    proof { let u = kidz($T_kids(*self_)); assert(upd_Register(t_, u, drv(found_[it2.index()]@), |x: Register, y: Register| repointed(x, y, true, reg_source(from_, *bpath)))); lemma_step(a_, t_, u, found_, it2.index(), reg_source(from_, *bpath)); }
//@loop 3 it3 hoist
    invariant it3.seq() == g3_, forall|j: int| 0 <= j < it3.index() ==> repointed(*g3_[j], *final(#[trigger] g3_[j]), true, reg_source(from_, *bpath)),
//@tail
    proof { lemma_end(a_, kidz($T_kids(*self_)), s0_, spec_, reg_source(from_, *bpath), found_); assert(repointed_t(a_, kidz($T_kids(*self_)), s0_, spec_, reg_source(from_, *bpath))); }
//@end
//@endeach
}
fn main(){}
