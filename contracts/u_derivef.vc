//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_wc.rs
//@use p_text.rs
//@import p_make.rs p_block.rs p_iter.rs p_spec.rs
//@wrap get_or_insert
//@use p_clone.rs p_path.rs
verus! {
//@fn src/patch/register.rs | RegisterExt for Register | derive_field::make_path
//@sub (parts.next(), parts.next(), parts.next(), parts.next()) =>> next4(&mut parts)
//@spec
    ensures r@ == fld_source(dpath@, *rpath)
//@start
    broadcast use {lemma_sibling, lemma_splits_len}; proof { reveal_strlit("."); }
//@end
pub open spec fn derive_info(y: Yaml, p: RegisterPath, m: FieldB, d: Option<DimElementBuilder>) -> bool {
    &&& source(y) is Some && tx(m.derived_from) == Some(fld_source(source(y).unwrap(), p))
    &&& match y {
        Yaml::String(s) => d is None && fld_b_none(FieldB { derived_from: None, ..m }),
        Yaml::Hash(h) => dim_of(h, d) && exists|m0: FieldB| #[trigger] fld_made(h, Some(&p), m0) && m == (FieldB { derived_from: m.derived_from, ..m0 }),
        _ => false }
}
pub open spec fn fld_derived(m: FieldB, d: Option<DimElementBuilder>) -> spec_fn(Field, Field) -> bool { |a: Field, b: Field| dim_shape(a, d, b) && fld_mod(ma(a), m, ma(b)) }
pub open spec fn fld_new(n: Seq<char>, m: FieldB, d: Option<DimElementBuilder>, f: Field) -> bool { dim_new(d, f) && ma(f).name@ == n && fld_built(FieldB { name: Some(ma(f).name), ..m }, ma(f)) }
pub open spec fn derived(s: Seq<Field>, t: Seq<Field>, spec: Seq<char>, m: FieldB, d: Option<DimElementBuilder>) -> bool {
    if any_sel(s, named(sel(spec))) { upd_sel(s, t, named(sel(spec)), fld_derived(m, d)) }
    else if sel_opt(spec) { t == s } else { t.len() == s.len() + 1 && t == s.push(t.last()) && fld_new(sel(spec), m, d, t.last()) }
}
pub trait GetOrX<T> { fn get_or_insert_v<'a>(&'a mut self, x: T) -> &'a mut T; }
impl<T> GetOrX<T> for Option<T> {
    #[verifier::external_body]
    fn get_or_insert_v<'a>(&'a mut self, x: T) -> (r: &'a mut T) ensures *r == (match *old(self) { Some(y) => y, None => x }), *final(self) == Some(*final(r)) { self.get_or_insert(x) }
}
//@fn src/patch/register.rs | RegisterExt for Register | derive_field
//@self Register
//@attr #[verifier::loop_isolation(false)]
//@sub? super::check_dimable_name =>> check_dimable_name
//@sub? .collect::<Vec<_>>() =>>
//@spec
    ensures source(*fderive) is None ==> r is Err,
        r is Ok ==> reg_only_fields(ma(*final(self_)), ma(*old(self_))) && ma_shape(*final(self_), *old(self_)) && exists|m: FieldB, d: Option<DimElementBuilder>|
            #[trigger] derive_info(*fderive, *rpath, m, d) && #[trigger] derived(reg_fields(*old(self_)), reg_fields(*final(self_)), fspec@, m, d),
//@start
    broadcast use {lemma_none};
    let ghost s0_ = reg_fields(*self_); let ghost spec_ = fspec@;
//@before "let ftags"
    let ghost m_ = fld_b(info); let ghost d_ = dim;
    proof { assert(derive_info(*fderive, *rpath, m_, d_)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> fld_derived(m_, d_)(*g1_[j], *final(#[trigger] g1_[j])),
//@tail
    proof { let t = reg_fields(*self_);
        if any_sel(s0_, named(sel(spec_))) { assert(upd_sel(s0_, t, named(sel(spec_)), fld_derived(m_, d_))); }
        else if !sel_opt(spec_) { assert(t =~= s0_.push(t.last())); }
        assert(derived(s0_, t, spec_, m_, d_)); }
//@end
}
fn main(){}
