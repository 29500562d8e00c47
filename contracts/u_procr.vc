// generated by tools/gen_proc.py
//@use p_base.rs p_svd.rs p_frames.rs p_std.rs
//@import p_block.rs p_spec.rs p_iter.rs p_kids.rs p_yaml.rs p_yamlm.rs p_hash.rs p_prog.rs
//@methods Register: delete_field strip_start strip_end add_prefix add_suffix clear_field modify_field add_field derive_field merge_fields split_fields process_field collect_fields_in_array
verus! {
// the one option the register section looks at
pub struct Config { pub update_fields: bool }
pub open spec fn Register_fields_frame(a: Register, b: Register) -> bool { $but(reg, ma(a), ma(b), fields) && ma_shape(a, b) }
#[verifier::external_body] pub fn Register__delete_field(self_: &mut Register, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DelFld(s_@), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__strip_start(self_: &mut Register, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Strip(s_@), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__strip_end(self_: &mut Register, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::StripEnd(s_@), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__add_prefix(self_: &mut Register, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Prefix(s_@), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__add_suffix(self_: &mut Register, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Suffix(s_@), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__clear_field(self_: &mut Register, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Clear(s_@), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__modify_field(self_: &mut Register, s_: &str, h_: &Hash, p_: &RegisterPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ModFld(s_@, *h_), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__add_field(self_: &mut Register, s_: &str, h_: &Hash, p_: &RegisterPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::AddFld(s_@, *h_), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__collect_fields_in_array(self_: &mut Register, s_: &str, h_: &Hash, p_: &RegisterPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Arr(s_@, *h_), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__derive_field(self_: &mut Register, s_: &str, y_: &Yaml, p_: &RegisterPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DerFld(s_@, *y_), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__merge_fields(self_: &mut Register, s_: &str, y_: Option<&Yaml>, p_: &RegisterPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Merge(s_@, match y_ { Some(y) => Some(*y), None => None }), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__split_fields(self_: &mut Register, s_: &str, h_: &Hash, p_: &RegisterPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), (if hents(*h_).len() == 0 { Op::SplitNone(s_@) } else { Op::Split(s_@, *h_) }), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Register__process_field(self_: &mut Register, s_: &str, y_: &Yaml, p_: &RegisterPath, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Fld(s_@, *y_), *final(self_)), Register_fields_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn reg_path(p: &Register, b: &BlockPath) -> RegisterPath { unimplemented!() }
// TRUSTED: a new dictionary has no entries
#[verifier::external_body] pub fn empty_hash() -> (r: Hash) ensures hents(r).len() == 0 { Hash::new() }
// the words of a section that are not names
pub open spec fn kw_r_spec(s: Seq<char>) -> bool { s == "_include"@ || s == "_path"@ || s == "_delete"@ || s == "_derive"@ || s == "_strip"@ || s == "_strip_end"@ || s == "_prefix"@ || s == "_suffix"@ || s == "_clear"@ || s == "_modify"@ || s == "_add"@ || s == "_merge"@ || s == "_split"@ || s == "_array"@ }
//@words kw_r | src/patch/register.rs | RegisterExt | KEYWORDS
pub open spec fn f_del() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::DelFld(e)] }
pub open spec fn f_strip() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::Strip(e)] }
pub open spec fn f_stripend() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::StripEnd(e)] }
pub open spec fn f_clear() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::Clear(e)] }
pub open spec fn f_mod() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ModFld(kstr(e.0), hv(e.1))] }
pub open spec fn f_add() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::AddFld(kstr(e.0), hv(e.1))] }
pub open spec fn f_arr() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::Arr(kstr(e.0), hv(e.1))] }
pub open spec fn f_der() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::DerFld(kstr(e.0), e.1)] }
pub open spec fn f_merge() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::Merge(kstr(e.0), Some(e.1))] }
pub open spec fn f_merge_y() -> spec_fn(Yaml) -> Seq<Op> { |e: Yaml| seq![Op::Merge(kstr(e), None)] }
pub open spec fn f_split() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if hents(hv(e.1)).len() == 0 { seq![Op::SplitNone(kstr(e.0))] } else { seq![Op::Split(kstr(e.0), hv(e.1))] } }
pub open spec fn f_split_y() -> spec_fn(Yaml) -> Seq<Op> { |e: Yaml| seq![Op::SplitNone(kstr(e))] }
pub open spec fn f_fld() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kw_r(kstr(e.0)) { Seq::empty() } else { seq![Op::Fld(kstr(e.0), e.1)] } }
pub open spec fn merges(y: Option<Yaml>) -> Seq<Op> {
    match y { Some(Yaml::Hash(h)) => all(hents(h), f_merge()), Some(Yaml::Array(a)) => all(a@, f_merge_y()), Some(Yaml::String(s)) => seq![Op::Merge(s@, None)], _ => Seq::empty() }
}
pub open spec fn splits_(y: Option<Yaml>) -> Seq<Op> {
    match y { Some(Yaml::Hash(h)) => all(hents(h), f_split()), Some(Yaml::Array(a)) => all(a@, f_split_y()), Some(Yaml::String(s)) => seq![Op::SplitNone(s@)], _ => Seq::empty() }
}
pub open spec fn pre_op(y: Option<Yaml>) -> Seq<Op> { match y { None => Seq::empty(), Some(y) => seq![Op::Prefix(kstr(y))] } }
pub open spec fn suf_op(y: Option<Yaml>) -> Seq<Op> { match y { None => Seq::empty(), Some(y) => seq![Op::Suffix(kstr(y))] } }
pub open spec fn p0(u: bool, h: Hash) -> Seq<Op> { Seq::empty() }
pub open spec fn p1(u: bool, h: Hash) -> Seq<Op> { p0(u, h) + all(svec(h, "_delete"@), f_del()) }
pub open spec fn p2(u: bool, h: Hash) -> Seq<Op> { p1(u, h) + all(svec(h, "_strip"@), f_strip()) }
pub open spec fn p3(u: bool, h: Hash) -> Seq<Op> { p2(u, h) + all(svec(h, "_strip_end"@), f_stripend()) }
pub open spec fn p4(u: bool, h: Hash) -> Seq<Op> { p3(u, h) + pre_op(yget(h, "_prefix"@)) }
pub open spec fn p5(u: bool, h: Hash) -> Seq<Op> { p4(u, h) + suf_op(yget(h, "_suffix"@)) }
pub open spec fn p6(u: bool, h: Hash) -> Seq<Op> { p5(u, h) + all(svec(h, "_clear"@), f_clear()) }
pub open spec fn p7(u: bool, h: Hash) -> Seq<Op> { p6(u, h) + all(ents(h, "_modify"@), f_mod()) }
pub open spec fn p8(u: bool, h: Hash) -> Seq<Op> { p7(u, h) + all(ents(h, "_add"@), f_add()) }
pub open spec fn p9(u: bool, h: Hash) -> Seq<Op> { p8(u, h) + all(ents(h, "_derive"@), f_der()) }
pub open spec fn p10(u: bool, h: Hash) -> Seq<Op> { p9(u, h) + merges(yget(h, "_merge"@)) }
pub open spec fn p11(u: bool, h: Hash) -> Seq<Op> { p10(u, h) + splits_(yget(h, "_split"@)) }
pub open spec fn p12(u: bool, h: Hash) -> Seq<Op> { p11(u, h) + (if u { all(hents(h), f_fld()) } else { Seq::empty() }) }
pub open spec fn p13(u: bool, h: Hash) -> Seq<Op> { p12(u, h) + all(ents(h, "_array"@), f_arr()) }
//@fn src/patch/register.rs | RegisterExt for Register | process
//@self Register
//@sub bpath.new_register(&self.name) =>> reg_path(self_, bpath)
//@sub &Hash::new() =>> &empty_hash()
//@sub Self::KEYWORDS.contains(&fspec) =>> kw_r_has(fspec)
//@spec
    ensures ma(*old(self_)).derived_from is Some ==> r is Ok && *final(self_) == *old(self_),
        ma(*old(self_)).derived_from is None && r is Ok ==> run(*old(self_), p13(config.update_fields, *rmod), *final(self_)),
        Register_fields_frame(*final(self_), *old(self_)),
//@start
    broadcast use axiom_str_ext;
//@before "if let Some(prefix)"
    let ghost q3_ = *self_;
//@after "self.add_prefix(prefix)"
    proof { lemma_snoc1(*old(self_), p3(config.update_fields, *rmod), q3_, Op::Prefix(prefix@), *self_); }
//@before "if let Some(suffix)"
    proof { if yget(*rmod, "_prefix"@) is None { assert(p4(config.update_fields, *rmod) =~= p3(config.update_fields, *rmod)); } assert(run(*old(self_), p4(config.update_fields, *rmod), *self_)); }
    let ghost q4_ = *self_;
//@after "self.add_suffix(suffix)"
    proof { lemma_snoc1(*old(self_), p4(config.update_fields, *rmod), q4_, Op::Suffix(suffix@), *self_); }
//@before "match rmod.get_yaml("_merge")"
    let ghost q9_ = *self_;
//@before "match rmod.get_yaml("_split")"
    proof {
        let y = yget(*rmod, "_merge"@);
        if y is Some && y.unwrap() is String { lemma_snoc1(*old(self_), p9(config.update_fields, *rmod), q9_, merges(y)[0], *self_); }
        else if merges(y).len() == 0 { assert(p10(config.update_fields, *rmod) =~= p9(config.update_fields, *rmod)); }
        assert(run(*old(self_), p10(config.update_fields, *rmod), *self_));
    }
    let ghost q10_ = *self_;
//@before "if config.update_fields"
    proof {
        let y = yget(*rmod, "_split"@);
        if y is Some && y.unwrap() is String { lemma_snoc1(*old(self_), p10(config.update_fields, *rmod), q10_, splits_(y)[0], *self_); }
        else if splits_(y).len() == 0 { assert(p11(config.update_fields, *rmod) =~= p10(config.update_fields, *rmod)); }
        assert(run(*old(self_), p11(config.update_fields, *rmod), *self_));
    }
//@before-loop 1
    proof { lemma_nil(p0(config.update_fields, *rmod), svec(*rmod, "_delete"@), f_del()); }
//@loop 1 it1 hoistv
    invariant it1.seq() == g1_, eqs(g1_, svec(*rmod, "_delete"@)), run(*old(self_), p0(config.update_fields, *rmod) + flat(svec(*rmod, "_delete"@), f_del(), it1.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 1
    broadcast use axiom_str_ext; 
    let ghost e1_ = svec(*rmod, "_delete"@)[it1.index() as int]; let ghost p1_ = *self_; let ghost a1_ = p0(config.update_fields, *rmod) + flat(svec(*rmod, "_delete"@), f_del(), it1.index());
//@loop-end 1
    proof { adv(*old(self_), p0(config.update_fields, *rmod), svec(*rmod, "_delete"@), f_del(), it1.index() as int, p1_, *self_); }
//@before-loop 2
    proof { lemma_nil(p1(config.update_fields, *rmod), svec(*rmod, "_strip"@), f_strip()); }
//@loop 2 it2 hoistv
    invariant it2.seq() == g2_, eqs(g2_, svec(*rmod, "_strip"@)), run(*old(self_), p1(config.update_fields, *rmod) + flat(svec(*rmod, "_strip"@), f_strip(), it2.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 2
    broadcast use axiom_str_ext; 
    let ghost e2_ = svec(*rmod, "_strip"@)[it2.index() as int]; let ghost p2_ = *self_; let ghost a2_ = p1(config.update_fields, *rmod) + flat(svec(*rmod, "_strip"@), f_strip(), it2.index());
//@loop-end 2
    proof { adv(*old(self_), p1(config.update_fields, *rmod), svec(*rmod, "_strip"@), f_strip(), it2.index() as int, p2_, *self_); }
//@before-loop 3
    proof { lemma_nil(p2(config.update_fields, *rmod), svec(*rmod, "_strip_end"@), f_stripend()); }
//@loop 3 it3 hoistv
    invariant it3.seq() == g3_, eqs(g3_, svec(*rmod, "_strip_end"@)), run(*old(self_), p2(config.update_fields, *rmod) + flat(svec(*rmod, "_strip_end"@), f_stripend(), it3.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 3
    broadcast use axiom_str_ext; 
    let ghost e3_ = svec(*rmod, "_strip_end"@)[it3.index() as int]; let ghost p3_ = *self_; let ghost a3_ = p2(config.update_fields, *rmod) + flat(svec(*rmod, "_strip_end"@), f_stripend(), it3.index());
//@loop-end 3
    proof { adv(*old(self_), p2(config.update_fields, *rmod), svec(*rmod, "_strip_end"@), f_stripend(), it3.index() as int, p3_, *self_); }
//@before-loop 4
    proof { if yget(*rmod, "_suffix"@) is None { assert(p5(config.update_fields, *rmod) =~= p4(config.update_fields, *rmod)); } assert(run(*old(self_), p5(config.update_fields, *rmod), *self_)); lemma_nil(p5(config.update_fields, *rmod), svec(*rmod, "_clear"@), f_clear()); }
//@loop 4 it4 hoistv
    invariant it4.seq() == g4_, eqs(g4_, svec(*rmod, "_clear"@)), run(*old(self_), p5(config.update_fields, *rmod) + flat(svec(*rmod, "_clear"@), f_clear(), it4.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 4
    broadcast use axiom_str_ext; 
    let ghost e4_ = svec(*rmod, "_clear"@)[it4.index() as int]; let ghost p4_ = *self_; let ghost a4_ = p5(config.update_fields, *rmod) + flat(svec(*rmod, "_clear"@), f_clear(), it4.index());
//@loop-end 4
    proof { adv(*old(self_), p5(config.update_fields, *rmod), svec(*rmod, "_clear"@), f_clear(), it4.index() as int, p4_, *self_); }
//@before-loop 5
    proof { lemma_nil(p6(config.update_fields, *rmod), ents(*rmod, "_modify"@), f_mod()); }
//@loop 5 it5 hoistv
    invariant it5.seq() == g5_, eqe(g5_, ents(*rmod, "_modify"@)), run(*old(self_), p6(config.update_fields, *rmod) + flat(ents(*rmod, "_modify"@), f_mod(), it5.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 5
    broadcast use axiom_str_ext; 
    let ghost e5_ = ents(*rmod, "_modify"@)[it5.index() as int]; let ghost p5_ = *self_; let ghost a5_ = p6(config.update_fields, *rmod) + flat(ents(*rmod, "_modify"@), f_mod(), it5.index());
//@loop-end 5
    proof { adv(*old(self_), p6(config.update_fields, *rmod), ents(*rmod, "_modify"@), f_mod(), it5.index() as int, p5_, *self_); }
//@before-loop 6
    proof { lemma_nil(p7(config.update_fields, *rmod), ents(*rmod, "_add"@), f_add()); }
//@loop 6 it6 hoistv
    invariant it6.seq() == g6_, eqe(g6_, ents(*rmod, "_add"@)), run(*old(self_), p7(config.update_fields, *rmod) + flat(ents(*rmod, "_add"@), f_add(), it6.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 6
    broadcast use axiom_str_ext; 
    let ghost e6_ = ents(*rmod, "_add"@)[it6.index() as int]; let ghost p6_ = *self_; let ghost a6_ = p7(config.update_fields, *rmod) + flat(ents(*rmod, "_add"@), f_add(), it6.index());
//@loop-end 6
    proof { adv(*old(self_), p7(config.update_fields, *rmod), ents(*rmod, "_add"@), f_add(), it6.index() as int, p6_, *self_); }
//@before-loop 7
    proof { lemma_nil(p8(config.update_fields, *rmod), ents(*rmod, "_derive"@), f_der()); }
//@loop 7 it7 hoistv
    invariant it7.seq() == g7_, eqe(g7_, ents(*rmod, "_derive"@)), run(*old(self_), p8(config.update_fields, *rmod) + flat(ents(*rmod, "_derive"@), f_der(), it7.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 7
    broadcast use axiom_str_ext; 
    let ghost e7_ = ents(*rmod, "_derive"@)[it7.index() as int]; let ghost p7_ = *self_; let ghost a7_ = p8(config.update_fields, *rmod) + flat(ents(*rmod, "_derive"@), f_der(), it7.index());
//@loop-end 7
    proof { adv(*old(self_), p8(config.update_fields, *rmod), ents(*rmod, "_derive"@), f_der(), it7.index() as int, p7_, *self_); }
//@before-loop 8
    proof { lemma_nil(p9(config.update_fields, *rmod), hents(*h), f_merge()); }
//@loop 8 it8 hoistv
    invariant it8.seq() == g8_, eqe(g8_, hents(*h)), run(*old(self_), p9(config.update_fields, *rmod) + flat(hents(*h), f_merge(), it8.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 8
    broadcast use axiom_str_ext; 
    let ghost e8_ = hents(*h)[it8.index() as int]; let ghost p8_ = *self_; let ghost a8_ = p9(config.update_fields, *rmod) + flat(hents(*h), f_merge(), it8.index());
//@loop-end 8
    proof { adv(*old(self_), p9(config.update_fields, *rmod), hents(*h), f_merge(), it8.index() as int, p8_, *self_); }
//@before-loop 9
    proof { lemma_nil(p9(config.update_fields, *rmod), a@, f_merge_y()); }
//@loop 9 it9 hoistv
    invariant it9.seq() == g9_, eqy(g9_, a@), run(*old(self_), p9(config.update_fields, *rmod) + flat(a@, f_merge_y(), it9.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 9
    broadcast use axiom_str_ext; 
    let ghost e9_ = a@[it9.index() as int]; let ghost p9_ = *self_; let ghost a9_ = p9(config.update_fields, *rmod) + flat(a@, f_merge_y(), it9.index());
//@loop-end 9
    proof { adv(*old(self_), p9(config.update_fields, *rmod), a@, f_merge_y(), it9.index() as int, p9_, *self_); }
//@before-loop 10
    proof { lemma_nil(p10(config.update_fields, *rmod), hents(*h), f_split()); }
//@loop 10 it10 hoistv
    invariant it10.seq() == g10_, eqe(g10_, hents(*h)), run(*old(self_), p10(config.update_fields, *rmod) + flat(hents(*h), f_split(), it10.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 10
    broadcast use axiom_str_ext; 
    let ghost e10_ = hents(*h)[it10.index() as int]; let ghost p10_ = *self_; let ghost a10_ = p10(config.update_fields, *rmod) + flat(hents(*h), f_split(), it10.index());
//@loop-end 10
    proof { adv(*old(self_), p10(config.update_fields, *rmod), hents(*h), f_split(), it10.index() as int, p10_, *self_); }
//@before-loop 11
    proof { lemma_nil(p10(config.update_fields, *rmod), a@, f_split_y()); }
//@loop 11 it11 hoistv
    invariant it11.seq() == g11_, eqy(g11_, a@), run(*old(self_), p10(config.update_fields, *rmod) + flat(a@, f_split_y(), it11.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 11
    broadcast use axiom_str_ext; 
    let ghost e11_ = a@[it11.index() as int]; let ghost p11_ = *self_; let ghost a11_ = p10(config.update_fields, *rmod) + flat(a@, f_split_y(), it11.index());
//@loop-end 11
    proof { adv(*old(self_), p10(config.update_fields, *rmod), a@, f_split_y(), it11.index() as int, p11_, *self_); }
//@before-loop 12
    proof { lemma_nil(p11(config.update_fields, *rmod), hents(*rmod), f_fld()); }
//@loop 12 it12 hoistv
    invariant it12.seq() == g12_, eqe(g12_, hents(*rmod)), run(*old(self_), p11(config.update_fields, *rmod) + flat(hents(*rmod), f_fld(), it12.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None, config.update_fields,
//@loop-start 12
    broadcast use axiom_str_ext; 
    let ghost e12_ = hents(*rmod)[it12.index() as int]; let ghost p12_ = *self_; let ghost a12_ = p11(config.update_fields, *rmod) + flat(hents(*rmod), f_fld(), it12.index());
//@loop-end 12
    proof { adv(*old(self_), p11(config.update_fields, *rmod), hents(*rmod), f_fld(), it12.index() as int, p12_, *self_); }
//@before-loop 13
    proof { if !config.update_fields { assert(p12(config.update_fields, *rmod) =~= p11(config.update_fields, *rmod)); } assert(run(*old(self_), p12(config.update_fields, *rmod), *self_)); lemma_nil(p12(config.update_fields, *rmod), ents(*rmod, "_array"@), f_arr()); }
//@loop 13 it13 hoistv
    invariant it13.seq() == g13_, eqe(g13_, ents(*rmod, "_array"@)), run(*old(self_), p12(config.update_fields, *rmod) + flat(ents(*rmod, "_array"@), f_arr(), it13.index()), *self_), Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,
//@loop-start 13
    broadcast use axiom_str_ext; 
    let ghost e13_ = ents(*rmod, "_array"@)[it13.index() as int]; let ghost p13_ = *self_; let ghost a13_ = p12(config.update_fields, *rmod) + flat(ents(*rmod, "_array"@), f_arr(), it13.index());
//@loop-end 13
    proof { adv(*old(self_), p12(config.update_fields, *rmod), ents(*rmod, "_array"@), f_arr(), it13.index() as int, p13_, *self_); }
//@end
}
fn main(){}
