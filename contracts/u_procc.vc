// generated by tools/gen_proc.py
//@use p_base.rs p_svd.rs p_frames.rs p_std.rs
//@import p_block.rs p_spec.rs p_iter.rs p_kids.rs p_yaml.rs p_yamlm.rs p_hash.rs p_prog.rs
//@methods Cluster: delete_child delete_register delete_cluster strip_start strip_end add_prefix add_suffix clear_fields copy_register modify_register modify_cluster modify_child add_register add_cluster copy_cluster derive_register derive_cluster process_child process_cluster collect_in_array collect_in_cluster expand_array expand_cluster delete_interrupt modify_interrupt add_interrupt pre_process post_process
verus! {
#[verifier::external_body] pub struct Config {}
proof fn words() ensures "_clusters"@ != "_registers"@, "_interrupts"@ != "_registers"@, "_interrupts"@ != "_clusters"@, "_preindex"@ != "_registers"@, "_preindex"@ != "_clusters"@, "_preindex"@ != "_interrupts"@, "_postindex"@ != "_registers"@, "_postindex"@ != "_clusters"@, "_postindex"@ != "_interrupts"@, "_postindex"@ != "_preindex"@, "_zeroindex"@ != "_registers"@, "_zeroindex"@ != "_clusters"@, "_zeroindex"@ != "_interrupts"@, "_zeroindex"@ != "_preindex"@, "_zeroindex"@ != "_postindex"@, "_noprefix"@ != "_registers"@, "_noprefix"@ != "_clusters"@, "_noprefix"@ != "_interrupts"@, "_noprefix"@ != "_preindex"@, "_noprefix"@ != "_postindex"@, "_noprefix"@ != "_zeroindex"@
{
    reveal_strlit("_registers");
    reveal_strlit("_clusters");
    reveal_strlit("_interrupts");
    reveal_strlit("_preindex");
    reveal_strlit("_postindex");
    reveal_strlit("_zeroindex");
    reveal_strlit("_noprefix");
    assert("_clusters"@ != "_registers"@) by { assert("_clusters"@.len() != "_registers"@.len()); }
    assert("_interrupts"@ != "_registers"@) by { assert("_interrupts"@.len() != "_registers"@.len()); }
    assert("_interrupts"@ != "_clusters"@) by { assert("_interrupts"@.len() != "_clusters"@.len()); }
    assert("_preindex"@ != "_registers"@) by { assert("_preindex"@.len() != "_registers"@.len()); }
    assert("_preindex"@ != "_clusters"@) by { assert("_preindex"@[1] != "_clusters"@[1]); }
    assert("_preindex"@ != "_interrupts"@) by { assert("_preindex"@.len() != "_interrupts"@.len()); }
    assert("_postindex"@ != "_registers"@) by { assert("_postindex"@[1] != "_registers"@[1]); }
    assert("_postindex"@ != "_clusters"@) by { assert("_postindex"@.len() != "_clusters"@.len()); }
    assert("_postindex"@ != "_interrupts"@) by { assert("_postindex"@.len() != "_interrupts"@.len()); }
    assert("_postindex"@ != "_preindex"@) by { assert("_postindex"@.len() != "_preindex"@.len()); }
    assert("_zeroindex"@ != "_registers"@) by { assert("_zeroindex"@[1] != "_registers"@[1]); }
    assert("_zeroindex"@ != "_clusters"@) by { assert("_zeroindex"@.len() != "_clusters"@.len()); }
    assert("_zeroindex"@ != "_interrupts"@) by { assert("_zeroindex"@.len() != "_interrupts"@.len()); }
    assert("_zeroindex"@ != "_preindex"@) by { assert("_zeroindex"@.len() != "_preindex"@.len()); }
    assert("_zeroindex"@ != "_postindex"@) by { assert("_zeroindex"@[1] != "_postindex"@[1]); }
    assert("_noprefix"@ != "_registers"@) by { assert("_noprefix"@.len() != "_registers"@.len()); }
    assert("_noprefix"@ != "_clusters"@) by { assert("_noprefix"@[1] != "_clusters"@[1]); }
    assert("_noprefix"@ != "_interrupts"@) by { assert("_noprefix"@.len() != "_interrupts"@.len()); }
    assert("_noprefix"@ != "_preindex"@) by { assert("_noprefix"@[1] != "_preindex"@[1]); }
    assert("_noprefix"@ != "_postindex"@) by { assert("_noprefix"@.len() != "_postindex"@.len()); }
    assert("_noprefix"@ != "_zeroindex"@) by { assert("_noprefix"@.len() != "_zeroindex"@.len()); }
}
pub open spec fn f_delchild_y() -> spec_fn(Yaml) -> Seq<Op> { |e: Yaml| seq![Op::DelChild(kstr(e))] }
pub open spec fn f_delchild() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::DelChild(e)] }
pub open spec fn f_delreg() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::DelReg(e)] }
pub open spec fn f_delclu() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::DelClu(e)] }
pub open spec fn f_delint() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::DelInt(e)] }
pub open spec fn f_strip() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::Strip(e)] }
pub open spec fn f_stripend() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::StripEnd(e)] }
pub open spec fn f_clear() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::Clear(e)] }
pub open spec fn f_copyreg() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::CopyReg(kstr(e.0), hv(e.1))] }
pub open spec fn f_modreg() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ModReg(kstr(e.0), hv(e.1))] }
pub open spec fn f_modint() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ModInt(kstr(e.0), hv(e.1))] }
pub open spec fn f_modclu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ModClu(kstr(e.0), hv(e.1))] }
pub open spec fn f_addreg() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::AddReg(kstr(e.0), hv(e.1))] }
pub open spec fn f_addclu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::AddClu(kstr(e.0), hv(e.1))] }
pub open spec fn f_addint() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::AddInt(kstr(e.0), hv(e.1))] }
pub open spec fn f_exparr() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ExpArr(kstr(e.0), hv(e.1))] }
pub open spec fn f_arr() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::Arr(kstr(e.0), hv(e.1))] }
pub open spec fn f_col() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::Col(kstr(e.0), hv(e.1))] }
pub open spec fn f_clu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::Clu(kstr(e.0), hv(e.1))] }
pub open spec fn f_copyclu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::CopyClu(hv(e.1))] }
pub open spec fn f_derreg() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::DerReg(kstr(e.0), e.1)] }
pub open spec fn f_derclu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::DerClu(kstr(e.0), e.1)] }
pub open spec fn f_copy() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_copyreg()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_copyclu()) } else { seq![Op::CopyReg(kstr(e.0), hv(e.1))] } }
pub open spec fn f_mod_p() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_modreg()) } else if kstr(e.0) == "_interrupts"@ { all(yh(Some(e.1)), f_modint()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_modclu()) } else { seq![Op::ModChild(kstr(e.0), hv(e.1))] } }
pub open spec fn f_mod_c() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_modreg()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_modclu()) } else { seq![Op::ModChild(kstr(e.0), hv(e.1))] } }
pub open spec fn f_add_p() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_addreg()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_addclu()) } else if kstr(e.0) == "_interrupts"@ { all(yh(Some(e.1)), f_addint()) } else { seq![Op::AddReg(kstr(e.0), hv(e.1))] } }
pub open spec fn f_add_c() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_addreg()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_addclu()) } else { seq![Op::AddReg(kstr(e.0), hv(e.1))] } }
pub open spec fn f_der() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_derreg()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_derclu()) } else { seq![Op::DerReg(kstr(e.0), e.1)] } }
// the first of the words of a dictionary: its last value
pub open spec fn last_of(s: Seq<(Yaml, Yaml)>, key: Seq<char>, n: int) -> Option<Yaml> decreases n {
    if n <= 0 { None } else if kstr(s[n - 1].0) == key { Some(s[n - 1].1) } else { last_of(s, key, n - 1) }
}
pub open spec fn os(y: Option<Yaml>) -> Option<Seq<char>> { match y { Some(y) => ystr(y), None => None } }
pub open spec fn ob(y: Option<Yaml>) -> Option<bool> { match y { Some(y) => ybool(y), None => None } }
pub open spec fn so(y: Option<&str>) -> Option<Seq<char>> { match y { Some(y) => Some(y@), None => None } }
pub open spec fn opt_of(y: Yaml, key: Seq<char>) -> Option<Yaml> { last_of(yh(Some(y)), key, yh(Some(y)).len() as int) }
pub open spec fn f_expclu_y() -> spec_fn(Yaml) -> Seq<Op> { |e: Yaml| seq![Op::ExpClu(kstr(e), None, None, None, None)] }
pub open spec fn f_expclu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ExpClu(kstr(e.0), os(opt_of(e.1, "_preindex"@)), os(opt_of(e.1, "_postindex"@)), ob(opt_of(e.1, "_zeroindex"@)), ob(opt_of(e.1, "_noprefix"@)))] }
pub open spec fn dels_p(y: Option<Yaml>) -> Seq<Op> {
    match y {
        None => Seq::empty(),
        Some(Yaml::String(s)) => seq![Op::DelChild(s@)],
        Some(Yaml::Array(a)) => all(a@, f_delchild_y()),
        Some(Yaml::Hash(h)) => all(svec(h, "_registers"@), f_delreg()) + all(svec(h, "_clusters"@), f_delclu()) + all(svec(h, "_interrupts"@), f_delint()),
        Some(_) => Seq::empty(),
    }
}
pub open spec fn dels_c(y: Option<Yaml>) -> Seq<Op> {
    match y {
        None => Seq::empty(),
        Some(Yaml::String(s)) => seq![Op::DelChild(s@)],
        Some(Yaml::Array(a)) => all(a@, f_delchild_y()),
        Some(Yaml::Hash(h)) => all(svec(h, "_registers"@), f_delreg()) + all(svec(h, "_clusters"@), f_delclu()),
        Some(_) => Seq::empty(),
    }
}
pub open spec fn exps(y: Option<Yaml>) -> Seq<Op> {
    match y {
        None => Seq::empty(),
        Some(Yaml::String(s)) => seq![Op::ExpClu(s@, None, None, None, None)],
        Some(Yaml::Array(a)) => all(a@, f_expclu_y()),
        Some(Yaml::Hash(h)) => all(hents(h), f_expclu()),
        Some(_) => Seq::empty(),
    }
}
pub open spec fn pre_op(y: Option<Yaml>) -> Seq<Op> { match y { None => Seq::empty(), Some(y) => seq![Op::Prefix(kstr(y))] } }
pub open spec fn suf_op(y: Option<Yaml>) -> Seq<Op> { match y { None => Seq::empty(), Some(y) => seq![Op::Suffix(kstr(y))] } }
#[verifier::external_body] pub fn Cluster__delete_child(self_: &mut Cluster, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DelChild(s_@), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__delete_register(self_: &mut Cluster, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DelReg(s_@), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__delete_cluster(self_: &mut Cluster, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DelClu(s_@), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__strip_start(self_: &mut Cluster, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Strip(s_@), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__strip_end(self_: &mut Cluster, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::StripEnd(s_@), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__add_prefix(self_: &mut Cluster, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Prefix(s_@), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__add_suffix(self_: &mut Cluster, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Suffix(s_@), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__clear_fields(self_: &mut Cluster, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Clear(s_@), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__copy_register(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::CopyReg(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__modify_register(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ModReg(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__modify_cluster(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ModClu(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__modify_child(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ModChild(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__add_register(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::AddReg(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__add_cluster(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::AddClu(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__copy_cluster(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::CopyClu(*h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__derive_register(self_: &mut Cluster, s_: &str, y_: &Yaml, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DerReg(s_@, *y_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__derive_cluster(self_: &mut Cluster, s_: &str, y_: &Yaml, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DerClu(s_@, *y_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__process_child(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Child(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__process_cluster(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Clu(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__collect_in_array(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Arr(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__collect_in_cluster(self_: &mut Cluster, s_: &str, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Col(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__expand_array(self_: &mut Cluster, s_: &str, h_: &Hash, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ExpArr(s_@, *h_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Cluster__expand_cluster(self_: &mut Cluster, s_: &str, p_: &BlockPath, a_: Option<&str>, b_: Option<&str>, d_: Option<bool>, e_: Option<bool>) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ExpClu(s_@, so(a_), so(b_), d_, e_), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn block_path(p: &Cluster, parent: &BlockPath) -> BlockPath { unimplemented!() }
// the words of a section that are not names
pub open spec fn kw_c_spec(s: Seq<char>) -> bool { s == "_include"@ || s == "_path"@ || s == "_delete"@ || s == "_copy"@ || s == "_strip"@ || s == "_strip_end"@ || s == "_prefix"@ || s == "_suffix"@ || s == "_modify"@ || s == "_clear_fields"@ || s == "_add"@ || s == "_derive"@ || s == "_expand_array"@ || s == "_expand_cluster"@ || s == "_array"@ || s == "_cluster"@ || s == "_clusters"@ }
//@words kw_c | src/patch/peripheral.rs | ClusterExt | KEYWORDS
pub open spec fn f_child() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kw_c(kstr(e.0)) { Seq::empty() } else { seq![Op::Child(kstr(e.0), hv(e.1))] } }
pub open spec fn p0(h: Hash) -> Seq<Op> { Seq::empty() }
pub open spec fn p1(h: Hash) -> Seq<Op> { p0(h) + dels_c(yget(h, "_delete"@)) }
pub open spec fn p2(h: Hash) -> Seq<Op> { p1(h) + all(ents(h, "_copy"@), f_copy()) }
pub open spec fn p3(h: Hash) -> Seq<Op> { p2(h) + all(svec(h, "_strip"@), f_strip()) }
pub open spec fn p4(h: Hash) -> Seq<Op> { p3(h) + all(svec(h, "_strip_end"@), f_stripend()) }
pub open spec fn p5(h: Hash) -> Seq<Op> { p4(h) + pre_op(yget(h, "_prefix"@)) }
pub open spec fn p6(h: Hash) -> Seq<Op> { p5(h) + suf_op(yget(h, "_suffix"@)) }
pub open spec fn p7(h: Hash) -> Seq<Op> { p6(h) + all(ents(h, "_modify"@), f_mod_c()) }
pub open spec fn p8(h: Hash) -> Seq<Op> { p7(h) + all(svec(h, "_clear_fields"@), f_clear()) }
pub open spec fn p9(h: Hash) -> Seq<Op> { p8(h) + all(ents(h, "_add"@), f_add_c()) }
pub open spec fn p10(h: Hash) -> Seq<Op> { p9(h) + all(ents(h, "_derive"@), f_der()) }
pub open spec fn m0(h: Hash) -> Seq<Op> { Seq::empty() }
pub open spec fn m1(h: Hash) -> Seq<Op> { m0(h) + all(ents(h, "_clusters"@), f_clu()) }
pub open spec fn m2(h: Hash) -> Seq<Op> { m1(h) + all(hents(h), f_child()) }
pub open spec fn q0(h: Hash) -> Seq<Op> { Seq::empty() }
pub open spec fn q1(h: Hash) -> Seq<Op> { q0(h) + all(ents(h, "_expand_array"@), f_exparr()) }
pub open spec fn q2(h: Hash) -> Seq<Op> { q1(h) + all(ents(h, "_array"@), f_arr()) }
pub open spec fn q3(h: Hash) -> Seq<Op> { q2(h) + all(ents(h, "_cluster"@), f_col()) }
proof fn assoc2(p: Seq<Op>, a: Seq<Op>, b: Seq<Op>) ensures p + a + b == p + (a + b) { assert(p + a + b =~= p + (a + b)); }
proof fn assoc3(p: Seq<Op>, a: Seq<Op>, b: Seq<Op>, c: Seq<Op>) ensures p + a + b + c == p + (a + b + c) { assert(p + a + b + c =~= p + (a + b + c)); }
proof fn lemma_cat_l<S>(a: S, x: Seq<Op>, y: Seq<Op>, m: S, b: S) requires run(a, x, m), run(m, y, b) ensures run(a, x + y, b) decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); }
    else {
        let n = choose|n: S| run(m, y.drop_last(), n) && step(n, y.last(), b);
        lemma_cat_l(a, x, y.drop_last(), m, n);
        lemma_snoc(a, x + y.drop_last(), n, y.last(), b);
        assert((x + y.drop_last()).push(y.last()) =~= x + y);
    }
}
proof fn lemma_after<S>(a: S, x: Seq<Op>, m: S, y: Seq<Op>) requires run(a, x, m) ensures forall|b: S| #[trigger] run(m, y, b) ==> run(a, x + y, b)
{ assert forall|b: S| #[trigger] run(m, y, b) implies run(a, x + y, b) by { lemma_cat_l(a, x, y, m, b); } }
// what a section of a cluster does, in this order
pub open spec fn prog(h: Hash) -> Seq<Op> { p10(h) + m2(h) + q3(h) }
//@fn src/patch/peripheral.rs | ClusterExt for Cluster | pre_process
//@self Cluster
//@sub parent.new_cluster(&self.name) =>> block_path(self_, parent)
//@spec
    ensures r is Ok ==> run(*old(self_), p10(*cmod), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)),
//@start
    broadcast use axiom_str_ext;
    proof { axiom_string_eq(); words(); }
//@after "self.delete_child(rcspec)"
    proof { lemma_snoc1(*old(self_), p0(*cmod), *old(self_), Op::DelChild(rcspec@), *self_); }
//@after-loop 3
    proof { assoc2(p0(*cmod), all(svec(*deletions, "_registers"@), f_delreg()), all(svec(*deletions, "_clusters"@), f_delclu())); }
//@before "if let Some(prefix)"
    let ghost q4_ = *self_;
//@after "self.add_prefix(prefix)"
    proof { lemma_snoc1(*old(self_), p4(*cmod), q4_, Op::Prefix(prefix@), *self_); }
//@before "if let Some(suffix)"
    proof { if yget(*cmod, "_prefix"@) is None { assert(p5(*cmod) =~= p4(*cmod)); } assert(run(*old(self_), p5(*cmod), *self_)); }
    let ghost q5_ = *self_;
//@after "self.add_suffix(suffix)"
    proof { lemma_snoc1(*old(self_), p5(*cmod), q5_, Op::Suffix(suffix@), *self_); }
//@before-loop 1
    proof { lemma_nil(p0(*cmod), deletions@, f_delchild_y()); }
//@loop 1 it1 hoistv
    invariant it1.seq() == g1_, eqy(g1_, deletions@), run(*old(self_), p0(*cmod) + flat(deletions@, f_delchild_y(), it1.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 1
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e1_ = deletions@[it1.index() as int]; let ghost p1_ = *self_; let ghost a1_ = p0(*cmod) + flat(deletions@, f_delchild_y(), it1.index());
//@loop-end 1
    proof { adv(*old(self_), p0(*cmod), deletions@, f_delchild_y(), it1.index() as int, p1_, *self_); }
//@before-loop 2
    proof { lemma_nil(p0(*cmod), svec(*deletions, "_registers"@), f_delreg()); }
//@loop 2 it2 hoistv
    invariant it2.seq() == g2_, eqs(g2_, svec(*deletions, "_registers"@)), run(*old(self_), p0(*cmod) + flat(svec(*deletions, "_registers"@), f_delreg(), it2.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 2
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e2_ = svec(*deletions, "_registers"@)[it2.index() as int]; let ghost p2_ = *self_; let ghost a2_ = p0(*cmod) + flat(svec(*deletions, "_registers"@), f_delreg(), it2.index());
//@loop-end 2
    proof { adv(*old(self_), p0(*cmod), svec(*deletions, "_registers"@), f_delreg(), it2.index() as int, p2_, *self_); }
//@before-loop 3
    proof { lemma_nil((p0(*cmod) + all(svec(*deletions, "_registers"@), f_delreg())), svec(*deletions, "_clusters"@), f_delclu()); }
//@loop 3 it3 hoistv
    invariant it3.seq() == g3_, eqs(g3_, svec(*deletions, "_clusters"@)), run(*old(self_), (p0(*cmod) + all(svec(*deletions, "_registers"@), f_delreg())) + flat(svec(*deletions, "_clusters"@), f_delclu(), it3.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 3
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e3_ = svec(*deletions, "_clusters"@)[it3.index() as int]; let ghost p3_ = *self_; let ghost a3_ = (p0(*cmod) + all(svec(*deletions, "_registers"@), f_delreg())) + flat(svec(*deletions, "_clusters"@), f_delclu(), it3.index());
//@loop-end 3
    proof { adv(*old(self_), (p0(*cmod) + all(svec(*deletions, "_registers"@), f_delreg())), svec(*deletions, "_clusters"@), f_delclu(), it3.index() as int, p3_, *self_); }
//@loop 4 it4 hoistv
    invariant run(*old(self_), p0(*cmod) + (all(svec(*deletions, "_registers"@), f_delreg()) + all(svec(*deletions, "_clusters"@), f_delclu())), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@before-loop 5
    proof { if dels_c(yget(*cmod, "_delete"@)).len() == 0 { assert(p1(*cmod) =~= p0(*cmod)); } lemma_nil(p1(*cmod), ents(*cmod, "_copy"@), f_copy()); }
//@loop 5 it5 hoistv
    invariant it5.seq() == g5_, eqe(g5_, ents(*cmod, "_copy"@)), run(*old(self_), p1(*cmod) + flat(ents(*cmod, "_copy"@), f_copy(), it5.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 5
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e5_ = ents(*cmod, "_copy"@)[it5.index() as int]; let ghost p5_ = *self_; let ghost a5_ = p1(*cmod) + flat(ents(*cmod, "_copy"@), f_copy(), it5.index());
//@loop-end 5
    proof { adv(*old(self_), p1(*cmod), ents(*cmod, "_copy"@), f_copy(), it5.index() as int, p5_, *self_); }
//@before-loop 6
    let ghost hh6_ = *rcopy; proof { lemma_nil(a5_, yh(Some(hh6_)), f_copyreg()); }
//@loop 6 it6 hoistv
    invariant it6.seq() == g6_, eqe(g6_, yh(Some(hh6_))), run(*old(self_), a5_ + flat(yh(Some(hh6_)), f_copyreg(), it6.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 6
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e6_ = yh(Some(hh6_))[it6.index() as int]; let ghost p6_ = *self_; let ghost a6_ = a5_ + flat(yh(Some(hh6_)), f_copyreg(), it6.index());
//@loop-end 6
    proof { adv(*old(self_), a5_, yh(Some(hh6_)), f_copyreg(), it6.index() as int, p6_, *self_); }
//@after-loop 6
    proof { assert(f_copy()(e5_) == all(yh(Some(hh6_)), f_copyreg())); assert(run(*old(self_), a5_ + f_copy()(e5_), *self_)); }
//@before-loop 7
    let ghost hh7_ = *rcopy; proof { lemma_nil(a5_, yh(Some(hh7_)), f_copyclu()); }
//@loop 7 it7 hoistv
    invariant it7.seq() == g7_, eqe(g7_, yh(Some(hh7_))), run(*old(self_), a5_ + flat(yh(Some(hh7_)), f_copyclu(), it7.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 7
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e7_ = yh(Some(hh7_))[it7.index() as int]; let ghost p7_ = *self_; let ghost a7_ = a5_ + flat(yh(Some(hh7_)), f_copyclu(), it7.index());
//@loop-end 7
    proof { adv(*old(self_), a5_, yh(Some(hh7_)), f_copyclu(), it7.index() as int, p7_, *self_); }
//@after-loop 7
    proof { assert(f_copy()(e5_) == all(yh(Some(hh7_)), f_copyclu())); assert(run(*old(self_), a5_ + f_copy()(e5_), *self_)); }
//@before-loop 8
    proof { lemma_nil(p2(*cmod), svec(*cmod, "_strip"@), f_strip()); }
//@loop 8 it8 hoistv
    invariant it8.seq() == g8_, eqs(g8_, svec(*cmod, "_strip"@)), run(*old(self_), p2(*cmod) + flat(svec(*cmod, "_strip"@), f_strip(), it8.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 8
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e8_ = svec(*cmod, "_strip"@)[it8.index() as int]; let ghost p8_ = *self_; let ghost a8_ = p2(*cmod) + flat(svec(*cmod, "_strip"@), f_strip(), it8.index());
//@loop-end 8
    proof { adv(*old(self_), p2(*cmod), svec(*cmod, "_strip"@), f_strip(), it8.index() as int, p8_, *self_); }
//@before-loop 9
    proof { lemma_nil(p3(*cmod), svec(*cmod, "_strip_end"@), f_stripend()); }
//@loop 9 it9 hoistv
    invariant it9.seq() == g9_, eqs(g9_, svec(*cmod, "_strip_end"@)), run(*old(self_), p3(*cmod) + flat(svec(*cmod, "_strip_end"@), f_stripend(), it9.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 9
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e9_ = svec(*cmod, "_strip_end"@)[it9.index() as int]; let ghost p9_ = *self_; let ghost a9_ = p3(*cmod) + flat(svec(*cmod, "_strip_end"@), f_stripend(), it9.index());
//@loop-end 9
    proof { adv(*old(self_), p3(*cmod), svec(*cmod, "_strip_end"@), f_stripend(), it9.index() as int, p9_, *self_); }
//@before-loop 10
    proof { if yget(*cmod, "_suffix"@) is None { assert(p6(*cmod) =~= p5(*cmod)); } assert(run(*old(self_), p6(*cmod), *self_)); lemma_nil(p6(*cmod), ents(*cmod, "_modify"@), f_mod_c()); }
//@loop 10 it10 hoistv
    invariant it10.seq() == g10_, eqe(g10_, ents(*cmod, "_modify"@)), run(*old(self_), p6(*cmod) + flat(ents(*cmod, "_modify"@), f_mod_c(), it10.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 10
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e10_ = ents(*cmod, "_modify"@)[it10.index() as int]; let ghost p10_ = *self_; let ghost a10_ = p6(*cmod) + flat(ents(*cmod, "_modify"@), f_mod_c(), it10.index());
//@loop-end 10
    proof { adv(*old(self_), p6(*cmod), ents(*cmod, "_modify"@), f_mod_c(), it10.index() as int, p10_, *self_); }
//@before-loop 11
    let ghost hh11_ = *rmod; proof { lemma_nil(a10_, hents(hh11_), f_modreg()); }
//@loop 11 it11 hoistv
    invariant it11.seq() == g11_, eqe(g11_, hents(hh11_)), run(*old(self_), a10_ + flat(hents(hh11_), f_modreg(), it11.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 11
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e11_ = hents(hh11_)[it11.index() as int]; let ghost p11_ = *self_; let ghost a11_ = a10_ + flat(hents(hh11_), f_modreg(), it11.index());
//@loop-end 11
    proof { adv(*old(self_), a10_, hents(hh11_), f_modreg(), it11.index() as int, p11_, *self_); }
//@after-loop 11
    proof { assert(f_mod_c()(e10_) == all(hents(hh11_), f_modreg())); assert(run(*old(self_), a10_ + f_mod_c()(e10_), *self_)); }
//@before-loop 12
    let ghost hh12_ = *rmod; proof { lemma_nil(a10_, hents(hh12_), f_modclu()); }
//@loop 12 it12 hoistv
    invariant it12.seq() == g12_, eqe(g12_, hents(hh12_)), run(*old(self_), a10_ + flat(hents(hh12_), f_modclu(), it12.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 12
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e12_ = hents(hh12_)[it12.index() as int]; let ghost p12_ = *self_; let ghost a12_ = a10_ + flat(hents(hh12_), f_modclu(), it12.index());
//@loop-end 12
    proof { adv(*old(self_), a10_, hents(hh12_), f_modclu(), it12.index() as int, p12_, *self_); }
//@after-loop 12
    proof { assert(f_mod_c()(e10_) == all(hents(hh12_), f_modclu())); assert(run(*old(self_), a10_ + f_mod_c()(e10_), *self_)); }
//@before-loop 13
    proof { lemma_nil(p7(*cmod), svec(*cmod, "_clear_fields"@), f_clear()); }
//@loop 13 it13 hoistv
    invariant it13.seq() == g13_, eqs(g13_, svec(*cmod, "_clear_fields"@)), run(*old(self_), p7(*cmod) + flat(svec(*cmod, "_clear_fields"@), f_clear(), it13.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 13
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e13_ = svec(*cmod, "_clear_fields"@)[it13.index() as int]; let ghost p13_ = *self_; let ghost a13_ = p7(*cmod) + flat(svec(*cmod, "_clear_fields"@), f_clear(), it13.index());
//@loop-end 13
    proof { adv(*old(self_), p7(*cmod), svec(*cmod, "_clear_fields"@), f_clear(), it13.index() as int, p13_, *self_); }
//@before-loop 14
    proof { lemma_nil(p8(*cmod), ents(*cmod, "_add"@), f_add_c()); }
//@loop 14 it14 hoistv
    invariant it14.seq() == g14_, eqe(g14_, ents(*cmod, "_add"@)), run(*old(self_), p8(*cmod) + flat(ents(*cmod, "_add"@), f_add_c(), it14.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 14
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e14_ = ents(*cmod, "_add"@)[it14.index() as int]; let ghost p14_ = *self_; let ghost a14_ = p8(*cmod) + flat(ents(*cmod, "_add"@), f_add_c(), it14.index());
//@loop-end 14
    proof { adv(*old(self_), p8(*cmod), ents(*cmod, "_add"@), f_add_c(), it14.index() as int, p14_, *self_); }
//@before-loop 15
    let ghost hh15_ = *radd; proof { lemma_nil(a14_, hents(hh15_), f_addreg()); }
//@loop 15 it15 hoistv
    invariant it15.seq() == g15_, eqe(g15_, hents(hh15_)), run(*old(self_), a14_ + flat(hents(hh15_), f_addreg(), it15.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 15
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e15_ = hents(hh15_)[it15.index() as int]; let ghost p15_ = *self_; let ghost a15_ = a14_ + flat(hents(hh15_), f_addreg(), it15.index());
//@loop-end 15
    proof { adv(*old(self_), a14_, hents(hh15_), f_addreg(), it15.index() as int, p15_, *self_); }
//@after-loop 15
    proof { assert(f_add_c()(e14_) == all(hents(hh15_), f_addreg())); assert(run(*old(self_), a14_ + f_add_c()(e14_), *self_)); }
//@before-loop 16
    let ghost hh16_ = *radd; proof { lemma_nil(a14_, hents(hh16_), f_addclu()); }
//@loop 16 it16 hoistv
    invariant it16.seq() == g16_, eqe(g16_, hents(hh16_)), run(*old(self_), a14_ + flat(hents(hh16_), f_addclu(), it16.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 16
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e16_ = hents(hh16_)[it16.index() as int]; let ghost p16_ = *self_; let ghost a16_ = a14_ + flat(hents(hh16_), f_addclu(), it16.index());
//@loop-end 16
    proof { adv(*old(self_), a14_, hents(hh16_), f_addclu(), it16.index() as int, p16_, *self_); }
//@after-loop 16
    proof { assert(f_add_c()(e14_) == all(hents(hh16_), f_addclu())); assert(run(*old(self_), a14_ + f_add_c()(e14_), *self_)); }
//@before-loop 17
    proof { lemma_nil(p9(*cmod), ents(*cmod, "_derive"@), f_der()); }
//@loop 17 it17 hoistv
    invariant it17.seq() == g17_, eqe(g17_, ents(*cmod, "_derive"@)), run(*old(self_), p9(*cmod) + flat(ents(*cmod, "_derive"@), f_der(), it17.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 17
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e17_ = ents(*cmod, "_derive"@)[it17.index() as int]; let ghost p17_ = *self_; let ghost a17_ = p9(*cmod) + flat(ents(*cmod, "_derive"@), f_der(), it17.index());
//@loop-end 17
    proof { adv(*old(self_), p9(*cmod), ents(*cmod, "_derive"@), f_der(), it17.index() as int, p17_, *self_); }
//@before-loop 18
    let ghost hh18_ = *rderive; proof { lemma_nil(a17_, yh(Some(hh18_)), f_derreg()); }
//@loop 18 it18 hoistv
    invariant it18.seq() == g18_, eqe(g18_, yh(Some(hh18_))), run(*old(self_), a17_ + flat(yh(Some(hh18_)), f_derreg(), it18.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 18
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e18_ = yh(Some(hh18_))[it18.index() as int]; let ghost p18_ = *self_; let ghost a18_ = a17_ + flat(yh(Some(hh18_)), f_derreg(), it18.index());
//@loop-end 18
    proof { adv(*old(self_), a17_, yh(Some(hh18_)), f_derreg(), it18.index() as int, p18_, *self_); }
//@after-loop 18
    proof { assert(f_der()(e17_) == all(yh(Some(hh18_)), f_derreg())); assert(run(*old(self_), a17_ + f_der()(e17_), *self_)); }
//@before-loop 19
    let ghost hh19_ = *rderive; proof { lemma_nil(a17_, yh(Some(hh19_)), f_derclu()); }
//@loop 19 it19 hoistv
    invariant it19.seq() == g19_, eqe(g19_, yh(Some(hh19_))), run(*old(self_), a17_ + flat(yh(Some(hh19_)), f_derclu(), it19.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 19
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e19_ = yh(Some(hh19_))[it19.index() as int]; let ghost p19_ = *self_; let ghost a19_ = a17_ + flat(yh(Some(hh19_)), f_derclu(), it19.index());
//@loop-end 19
    proof { adv(*old(self_), a17_, yh(Some(hh19_)), f_derclu(), it19.index() as int, p19_, *self_); }
//@after-loop 19
    proof { assert(f_der()(e17_) == all(yh(Some(hh19_)), f_derclu())); assert(run(*old(self_), a17_ + f_der()(e17_), *self_)); }
//@end
//@fn src/patch/peripheral.rs | ClusterExt for Cluster | post_process
//@self Cluster
//@sub parent.new_cluster(&self.name) =>> block_path(self_, parent)
//@spec
    ensures r is Ok ==> run(*old(self_), q3(*cmod), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)),
//@before-loop 1
    proof { lemma_nil(q0(*cmod), ents(*cmod, "_expand_array"@), f_exparr()); }
//@loop 1 it1 hoistv
    invariant it1.seq() == g1_, eqe(g1_, ents(*cmod, "_expand_array"@)), run(*old(self_), q0(*cmod) + flat(ents(*cmod, "_expand_array"@), f_exparr(), it1.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 1
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e1_ = ents(*cmod, "_expand_array"@)[it1.index() as int]; let ghost p1_ = *self_; let ghost a1_ = q0(*cmod) + flat(ents(*cmod, "_expand_array"@), f_exparr(), it1.index());
//@loop-end 1
    proof { adv(*old(self_), q0(*cmod), ents(*cmod, "_expand_array"@), f_exparr(), it1.index() as int, p1_, *self_); }
//@before-loop 2
    proof { lemma_nil(q1(*cmod), ents(*cmod, "_array"@), f_arr()); }
//@loop 2 it2 hoistv
    invariant it2.seq() == g2_, eqe(g2_, ents(*cmod, "_array"@)), run(*old(self_), q1(*cmod) + flat(ents(*cmod, "_array"@), f_arr(), it2.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 2
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e2_ = ents(*cmod, "_array"@)[it2.index() as int]; let ghost p2_ = *self_; let ghost a2_ = q1(*cmod) + flat(ents(*cmod, "_array"@), f_arr(), it2.index());
//@loop-end 2
    proof { adv(*old(self_), q1(*cmod), ents(*cmod, "_array"@), f_arr(), it2.index() as int, p2_, *self_); }
//@before-loop 3
    proof { lemma_nil(q2(*cmod), ents(*cmod, "_cluster"@), f_col()); }
//@loop 3 it3 hoistv
    invariant it3.seq() == g3_, eqe(g3_, ents(*cmod, "_cluster"@)), run(*old(self_), q2(*cmod) + flat(ents(*cmod, "_cluster"@), f_col(), it3.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),
//@loop-start 3
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e3_ = ents(*cmod, "_cluster"@)[it3.index() as int]; let ghost p3_ = *self_; let ghost a3_ = q2(*cmod) + flat(ents(*cmod, "_cluster"@), f_col(), it3.index());
//@loop-end 3
    proof { adv(*old(self_), q2(*cmod), ents(*cmod, "_cluster"@), f_col(), it3.index() as int, p3_, *self_); }
//@end
//@fn src/patch/peripheral.rs | ClusterExt for Cluster | process
//@self Cluster
//@sub parent.new_cluster(&self.name) =>> block_path(self_, parent)
//@sub Self::KEYWORDS.contains(&rcspec) =>> kw_c_has(rcspec)
//@spec
    ensures r is Ok ==> run(*old(self_), prog(*cmod), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)),
//@before "self.post_process("
    proof { lemma_cat_l(*old(self_), p10(*cmod), m2(*cmod), s0_, *self_); lemma_after(*old(self_), p10(*cmod) + m2(*cmod), *self_, q3(*cmod)); }
//@before-loop 1
    let ghost s0_ = *self_; 
//@before-loop 1
    proof { lemma_nil(m0(*cmod), ents(*cmod, "_clusters"@), f_clu()); }
//@loop 1 it1 hoistv
    invariant it1.seq() == g1_, eqe(g1_, ents(*cmod, "_clusters"@)), run(s0_, m0(*cmod) + flat(ents(*cmod, "_clusters"@), f_clu(), it1.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),run(*old(self_), p10(*cmod), s0_), 
//@loop-start 1
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e1_ = ents(*cmod, "_clusters"@)[it1.index() as int]; let ghost p1_ = *self_; let ghost a1_ = m0(*cmod) + flat(ents(*cmod, "_clusters"@), f_clu(), it1.index());
//@loop-end 1
    proof { adv(s0_, m0(*cmod), ents(*cmod, "_clusters"@), f_clu(), it1.index() as int, p1_, *self_); }
//@before-loop 2
    proof { lemma_nil(m1(*cmod), hents(*cmod), f_child()); }
//@loop 2 it2 hoistv
    invariant it2.seq() == g2_, eqe(g2_, hents(*cmod)), run(s0_, m1(*cmod) + flat(hents(*cmod), f_child(), it2.index()), *self_), Cluster_kids_frame(*self_, *old(self_)),run(*old(self_), p10(*cmod), s0_), 
//@loop-start 2
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e2_ = hents(*cmod)[it2.index() as int]; let ghost p2_ = *self_; let ghost a2_ = m1(*cmod) + flat(hents(*cmod), f_child(), it2.index());
//@loop-end 2
    proof { adv(s0_, m1(*cmod), hents(*cmod), f_child(), it2.index() as int, p2_, *self_); }
//@end
}
fn main(){}
