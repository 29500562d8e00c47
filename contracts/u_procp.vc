// generated by tools/gen_proc.py
//@use p_base.rs p_svd.rs p_frames.rs p_std.rs
//@import p_block.rs p_spec.rs p_iter.rs p_kids.rs p_yaml.rs p_yamlm.rs p_hash.rs p_prog.rs
//@methods Peripheral: delete_child delete_register delete_cluster strip_start strip_end add_prefix add_suffix clear_fields copy_register modify_register modify_cluster modify_child add_register add_cluster copy_cluster derive_register derive_cluster process_child process_cluster collect_in_array collect_in_cluster expand_array expand_cluster delete_interrupt modify_interrupt add_interrupt
verus! {
#[verifier::external_body] pub struct Config {}
proof fn words() ensures "_clusters"@ != "_registers"@, "_interrupts"@ != "_registers"@, "_interrupts"@ != "_clusters"@, "_preindex"@ != "_registers"@, "_preindex"@ != "_clusters"@, "_preindex"@ != "_interrupts"@, "_postindex"@ != "_registers"@, "_postindex"@ != "_clusters"@, "_postindex"@ != "_interrupts"@, "_postindex"@ != "_preindex"@, "_zeroindex"@ != "_registers"@, "_zeroindex"@ != "_clusters"@, "_zeroindex"@ != "_interrupts"@, "_zeroindex"@ != "_preindex"@, "_zeroindex"@ != "_postindex"@, "_noprefix"@ != "_registers"@, "_noprefix"@ != "_clusters"@, "_noprefix"@ != "_interrupts"@, "_noprefix"@ != "_preindex"@, "_noprefix"@ != "_postindex"@, "_noprefix"@ != "_zeroindex"@
{
    reveal_strlit("_registers");
    reveal_strlit("_clusters");
    reveal_strlit("_interrupts");
    reveal_strlit("_preindex");
    reveal_strlit("_postindex");
    reveal_strlit("_zeroindex");
    reveal_strlit("_noprefix");
    assert("_clusters"@ != "_registers"@) by { assert("_clusters"@.len() != "_registers"@.len()); }
    assert("_interrupts"@ != "_registers"@) by { assert("_interrupts"@.len() != "_registers"@.len()); }
    assert("_interrupts"@ != "_clusters"@) by { assert("_interrupts"@.len() != "_clusters"@.len()); }
    assert("_preindex"@ != "_registers"@) by { assert("_preindex"@.len() != "_registers"@.len()); }
    assert("_preindex"@ != "_clusters"@) by { assert("_preindex"@[1] != "_clusters"@[1]); }
    assert("_preindex"@ != "_interrupts"@) by { assert("_preindex"@.len() != "_interrupts"@.len()); }
    assert("_postindex"@ != "_registers"@) by { assert("_postindex"@[1] != "_registers"@[1]); }
    assert("_postindex"@ != "_clusters"@) by { assert("_postindex"@.len() != "_clusters"@.len()); }
    assert("_postindex"@ != "_interrupts"@) by { assert("_postindex"@.len() != "_interrupts"@.len()); }
    assert("_postindex"@ != "_preindex"@) by { assert("_postindex"@.len() != "_preindex"@.len()); }
    assert("_zeroindex"@ != "_registers"@) by { assert("_zeroindex"@[1] != "_registers"@[1]); }
    assert("_zeroindex"@ != "_clusters"@) by { assert("_zeroindex"@.len() != "_clusters"@.len()); }
    assert("_zeroindex"@ != "_interrupts"@) by { assert("_zeroindex"@.len() != "_interrupts"@.len()); }
    assert("_zeroindex"@ != "_preindex"@) by { assert("_zeroindex"@.len() != "_preindex"@.len()); }
    assert("_zeroindex"@ != "_postindex"@) by { assert("_zeroindex"@[1] != "_postindex"@[1]); }
    assert("_noprefix"@ != "_registers"@) by { assert("_noprefix"@.len() != "_registers"@.len()); }
    assert("_noprefix"@ != "_clusters"@) by { assert("_noprefix"@[1] != "_clusters"@[1]); }
    assert("_noprefix"@ != "_interrupts"@) by { assert("_noprefix"@.len() != "_interrupts"@.len()); }
    assert("_noprefix"@ != "_preindex"@) by { assert("_noprefix"@[1] != "_preindex"@[1]); }
    assert("_noprefix"@ != "_postindex"@) by { assert("_noprefix"@.len() != "_postindex"@.len()); }
    assert("_noprefix"@ != "_zeroindex"@) by { assert("_noprefix"@.len() != "_zeroindex"@.len()); }
}
pub open spec fn f_delchild_y() -> spec_fn(Yaml) -> Seq<Op> { |e: Yaml| seq![Op::DelChild(kstr(e))] }
pub open spec fn f_delchild() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::DelChild(e)] }
pub open spec fn f_delreg() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::DelReg(e)] }
pub open spec fn f_delclu() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::DelClu(e)] }
pub open spec fn f_delint() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::DelInt(e)] }
pub open spec fn f_strip() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::Strip(e)] }
pub open spec fn f_stripend() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::StripEnd(e)] }
pub open spec fn f_clear() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::Clear(e)] }
pub open spec fn f_copyreg() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::CopyReg(kstr(e.0), hv(e.1))] }
pub open spec fn f_modreg() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ModReg(kstr(e.0), hv(e.1))] }
pub open spec fn f_modint() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ModInt(kstr(e.0), hv(e.1))] }
pub open spec fn f_modclu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ModClu(kstr(e.0), hv(e.1))] }
pub open spec fn f_addreg() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::AddReg(kstr(e.0), hv(e.1))] }
pub open spec fn f_addclu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::AddClu(kstr(e.0), hv(e.1))] }
pub open spec fn f_addint() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::AddInt(kstr(e.0), hv(e.1))] }
pub open spec fn f_exparr() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ExpArr(kstr(e.0), hv(e.1))] }
pub open spec fn f_arr() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::Arr(kstr(e.0), hv(e.1))] }
pub open spec fn f_col() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::Col(kstr(e.0), hv(e.1))] }
pub open spec fn f_clu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::Clu(kstr(e.0), hv(e.1))] }
pub open spec fn f_copyclu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::CopyClu(hv(e.1))] }
pub open spec fn f_derreg() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::DerReg(kstr(e.0), e.1)] }
pub open spec fn f_derclu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::DerClu(kstr(e.0), e.1)] }
pub open spec fn f_copy() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_copyreg()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_copyclu()) } else { seq![Op::CopyReg(kstr(e.0), hv(e.1))] } }
pub open spec fn f_mod_p() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_modreg()) } else if kstr(e.0) == "_interrupts"@ { all(yh(Some(e.1)), f_modint()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_modclu()) } else { seq![Op::ModChild(kstr(e.0), hv(e.1))] } }
pub open spec fn f_mod_c() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_modreg()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_modclu()) } else { seq![Op::ModChild(kstr(e.0), hv(e.1))] } }
pub open spec fn f_add_p() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_addreg()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_addclu()) } else if kstr(e.0) == "_interrupts"@ { all(yh(Some(e.1)), f_addint()) } else { seq![Op::AddReg(kstr(e.0), hv(e.1))] } }
pub open spec fn f_add_c() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_addreg()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_addclu()) } else { seq![Op::AddReg(kstr(e.0), hv(e.1))] } }
pub open spec fn f_der() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "_registers"@ { all(yh(Some(e.1)), f_derreg()) } else if kstr(e.0) == "_clusters"@ { all(yh(Some(e.1)), f_derclu()) } else { seq![Op::DerReg(kstr(e.0), e.1)] } }
// the first of the words of a dictionary: its last value
pub open spec fn last_of(s: Seq<(Yaml, Yaml)>, key: Seq<char>, n: int) -> Option<Yaml> decreases n {
    if n <= 0 { None } else if kstr(s[n - 1].0) == key { Some(s[n - 1].1) } else { last_of(s, key, n - 1) }
}
pub open spec fn os(y: Option<Yaml>) -> Option<Seq<char>> { match y { Some(y) => ystr(y), None => None } }
pub open spec fn ob(y: Option<Yaml>) -> Option<bool> { match y { Some(y) => ybool(y), None => None } }
pub open spec fn so(y: Option<&str>) -> Option<Seq<char>> { match y { Some(y) => Some(y@), None => None } }
pub open spec fn opt_of(y: Yaml, key: Seq<char>) -> Option<Yaml> { last_of(yh(Some(y)), key, yh(Some(y)).len() as int) }
pub open spec fn f_expclu_y() -> spec_fn(Yaml) -> Seq<Op> { |e: Yaml| seq![Op::ExpClu(kstr(e), None, None, None, None)] }
pub open spec fn f_expclu() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ExpClu(kstr(e.0), os(opt_of(e.1, "_preindex"@)), os(opt_of(e.1, "_postindex"@)), ob(opt_of(e.1, "_zeroindex"@)), ob(opt_of(e.1, "_noprefix"@)))] }
pub open spec fn dels_p(y: Option<Yaml>) -> Seq<Op> {
    match y {
        None => Seq::empty(),
        Some(Yaml::String(s)) => seq![Op::DelChild(s@)],
        Some(Yaml::Array(a)) => all(a@, f_delchild_y()),
        Some(Yaml::Hash(h)) => all(svec(h, "_registers"@), f_delreg()) + all(svec(h, "_clusters"@), f_delclu()) + all(svec(h, "_interrupts"@), f_delint()),
        Some(_) => Seq::empty(),
    }
}
pub open spec fn dels_c(y: Option<Yaml>) -> Seq<Op> {
    match y {
        None => Seq::empty(),
        Some(Yaml::String(s)) => seq![Op::DelChild(s@)],
        Some(Yaml::Array(a)) => all(a@, f_delchild_y()),
        Some(Yaml::Hash(h)) => all(svec(h, "_registers"@), f_delreg()) + all(svec(h, "_clusters"@), f_delclu()),
        Some(_) => Seq::empty(),
    }
}
pub open spec fn exps(y: Option<Yaml>) -> Seq<Op> {
    match y {
        None => Seq::empty(),
        Some(Yaml::String(s)) => seq![Op::ExpClu(s@, None, None, None, None)],
        Some(Yaml::Array(a)) => all(a@, f_expclu_y()),
        Some(Yaml::Hash(h)) => all(hents(h), f_expclu()),
        Some(_) => Seq::empty(),
    }
}
pub open spec fn pre_op(y: Option<Yaml>) -> Seq<Op> { match y { None => Seq::empty(), Some(y) => seq![Op::Prefix(kstr(y))] } }
pub open spec fn suf_op(y: Option<Yaml>) -> Seq<Op> { match y { None => Seq::empty(), Some(y) => seq![Op::Suffix(kstr(y))] } }
#[verifier::external_body] pub fn Peripheral__delete_child(self_: &mut Peripheral, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DelChild(s_@), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__delete_register(self_: &mut Peripheral, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DelReg(s_@), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__delete_cluster(self_: &mut Peripheral, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DelClu(s_@), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__strip_start(self_: &mut Peripheral, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Strip(s_@), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__strip_end(self_: &mut Peripheral, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::StripEnd(s_@), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__add_prefix(self_: &mut Peripheral, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Prefix(s_@), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__add_suffix(self_: &mut Peripheral, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Suffix(s_@), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__clear_fields(self_: &mut Peripheral, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Clear(s_@), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__copy_register(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::CopyReg(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__modify_register(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ModReg(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__modify_cluster(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ModClu(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__modify_child(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ModChild(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__add_register(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::AddReg(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__add_cluster(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::AddClu(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__copy_cluster(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::CopyClu(*h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__derive_register(self_: &mut Peripheral, s_: &str, y_: &Yaml, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DerReg(s_@, *y_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__derive_cluster(self_: &mut Peripheral, s_: &str, y_: &Yaml, p_: &BlockPath) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DerClu(s_@, *y_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__process_child(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Child(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__process_cluster(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Clu(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__collect_in_array(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Arr(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__collect_in_cluster(self_: &mut Peripheral, s_: &str, h_: &Hash, p_: &BlockPath, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Col(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__expand_array(self_: &mut Peripheral, s_: &str, h_: &Hash, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ExpArr(s_@, *h_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__expand_cluster(self_: &mut Peripheral, s_: &str, p_: &BlockPath, a_: Option<&str>, b_: Option<&str>, d_: Option<bool>, e_: Option<bool>) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ExpClu(s_@, so(a_), so(b_), d_, e_), *final(self_)), Peripheral_kids_frame(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__delete_interrupt(self_: &mut Peripheral, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DelInt(s_@), *final(self_)), per_only_interrupt(ma(*final(self_)), ma(*old(self_))), ma_shape(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__modify_interrupt(self_: &mut Peripheral, s_: &str, h_: &Hash) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ModInt(s_@, *h_), *final(self_)), per_only_interrupt(ma(*final(self_)), ma(*old(self_))), ma_shape(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn Peripheral__add_interrupt(self_: &mut Peripheral, s_: &str, h_: &Hash) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::AddInt(s_@, *h_), *final(self_)), per_only_interrupt(ma(*final(self_)), ma(*old(self_))), ma_shape(*final(self_), *old(self_)) { unimplemented!() }
#[verifier::external_body] pub fn block_path(p: &Peripheral) -> BlockPath { unimplemented!() }
// the words of a section that are not names
pub open spec fn kw_p_spec(s: Seq<char>) -> bool { s == "_include"@ || s == "_path"@ || s == "_delete"@ || s == "_copy"@ || s == "_strip"@ || s == "_strip_end"@ || s == "_prefix"@ || s == "_suffix"@ || s == "_modify"@ || s == "_clear_fields"@ || s == "_add"@ || s == "_derive"@ || s == "_expand_array"@ || s == "_expand_cluster"@ || s == "_array"@ || s == "_cluster"@ || s == "_clusters"@ || s == "_interrupts"@ }
//@words kw_p | src/patch/peripheral.rs | PeripheralExt | KEYWORDS
// `get_hash(k).ok().flatten()`
pub fn hash_if<'a>(h: &'a Hash, k: &str) -> (r: Option<&'a Hash>) ensures match r { Some(x) => yget(*h, k@) is Some && yhash(yget(*h, k@).unwrap()) == Some(*x), None => yget(*h, k@) is None || yhash(yget(*h, k@).unwrap()) is None } { match h.get_hash(k) { Ok(x) => x, Err(_) => None } }
pub fn hash_list<'a>(h: &'a Hash, k: &str) -> (r: Vec<(&'a Yaml, &'a Yaml)>) ensures eqe(r@, ents(*h, k@)) { match hash_if(h, k) { Some(x) => x.it_v(), None => Vec::new() } }
pub open spec fn f_child() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kw_p(kstr(e.0)) { Seq::empty() } else { seq![Op::Child(kstr(e.0), hv(e.1))] } }
pub open spec fn f_modi() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if ystr(e.0) == Some("_interrupts"@) { all(yh(Some(e.1)), f_modint()) } else { Seq::empty() } }
pub open spec fn f_addi() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if ystr(e.0) == Some("_interrupts"@) { all(yh(Some(e.1)), f_addint()) } else { Seq::empty() } }
pub open spec fn p0(h: Hash) -> Seq<Op> { Seq::empty() }
pub open spec fn p1(h: Hash) -> Seq<Op> { p0(h) + dels_p(yget(h, "_delete"@)) }
pub open spec fn p2(h: Hash) -> Seq<Op> { p1(h) + all(ents(h, "_copy"@), f_copy()) }
pub open spec fn p3(h: Hash) -> Seq<Op> { p2(h) + all(svec(h, "_strip"@), f_strip()) }
pub open spec fn p4(h: Hash) -> Seq<Op> { p3(h) + all(svec(h, "_strip_end"@), f_stripend()) }
pub open spec fn p5(h: Hash) -> Seq<Op> { p4(h) + pre_op(yget(h, "_prefix"@)) }
pub open spec fn p6(h: Hash) -> Seq<Op> { p5(h) + suf_op(yget(h, "_suffix"@)) }
pub open spec fn p7(h: Hash) -> Seq<Op> { p6(h) + all(ents(h, "_modify"@), f_mod_p()) }
pub open spec fn p8(h: Hash) -> Seq<Op> { p7(h) + all(svec(h, "_clear_fields"@), f_clear()) }
pub open spec fn p9(h: Hash) -> Seq<Op> { p8(h) + all(ents(h, "_add"@), f_add_p()) }
pub open spec fn p10(h: Hash) -> Seq<Op> { p9(h) + all(ents(h, "_derive"@), f_der()) }
pub open spec fn p11(h: Hash) -> Seq<Op> { p10(h) + all(hents(h), f_child()) }
pub open spec fn p12(h: Hash) -> Seq<Op> { p11(h) + all(ents(h, "_expand_array"@), f_exparr()) }
pub open spec fn p13(h: Hash) -> Seq<Op> { p12(h) + all(ents(h, "_array"@), f_arr()) }
pub open spec fn p14(h: Hash) -> Seq<Op> { p13(h) + all(ents(h, "_cluster"@), f_col()) }
pub open spec fn p15(h: Hash) -> Seq<Op> { p14(h) + all(ents(h, "_clusters"@), f_clu()) }
pub open spec fn p16(h: Hash) -> Seq<Op> { p15(h) + exps(yget(h, "_expand_cluster"@)) }
pub open spec fn d0(h: Hash) -> Seq<Op> { Seq::empty() }
pub open spec fn d1(h: Hash) -> Seq<Op> { d0(h) + (match yget(h, "_delete"@) { Some(Yaml::Hash(d)) => all(svec(d, "_interrupts"@), f_delint()), _ => Seq::empty() }) }
pub open spec fn d2(h: Hash) -> Seq<Op> { d1(h) + all(ents(h, "_modify"@), f_modi()) }
pub open spec fn d3(h: Hash) -> Seq<Op> { d2(h) + all(ents(h, "_add"@), f_addi()) }
proof fn assoc3(p: Seq<Op>, a: Seq<Op>, b: Seq<Op>, c: Seq<Op>) ensures p + a + b + c == p + (a + b + c) { assert(p + a + b + c =~= p + (a + b + c)); }
// what a section of a peripheral does, in this order
pub open spec fn prog(derived: bool, h: Hash) -> Seq<Op> { if derived { d3(h) } else { p16(h) } }
pub fn as_hash_of(y: &Yaml) -> (r: Option<&Hash>) ensures match r { Some(x) => yhash(*y) == Some(*x), None => yhash(*y) is None } { match y.hash() { Ok(x) => Some(x), Err(_) => None } }
//@fn src/patch/peripheral.rs | PeripheralExt for Peripheral | process
//@self Peripheral
//@sub pmod.get_hash("_delete").ok().flatten() =>> hash_if(pmod, "_delete")
//@sub pmod.get_hash("_modify").ok().flatten().unwrap_or(&Hash::new()) =>> hash_list(pmod, "_modify")
//@sub pmod.get_hash("_add").ok().flatten().unwrap_or(&Hash::new()) =>> hash_list(pmod, "_add")
//@sub BlockPath::new(&self.name) =>> block_path(self_)
//@sub Self::KEYWORDS.contains(&rcspec) =>> kw_p_has(rcspec)
//@sub cspec.hash().ok() =>> as_hash_of(cspec)
//@spec
    ensures r is Ok ==> run(*old(self_), prog(ma(*old(self_)).derived_from is Some, *pmod), *final(self_)),
        // nothing but the interrupts of a derived peripheral is touched, failing or not
        ma(*old(self_)).derived_from is Some ==> per_only_interrupt(ma(*final(self_)), ma(*old(self_))) && ma_shape(*final(self_), *old(self_)),
        // and nothing but registers and interrupts of any other
        $but(per, ma(*final(self_)), ma(*old(self_)), interrupt registers), ma_shape(*final(self_), *old(self_)),
//@start
    broadcast use axiom_str_ext;
    proof { axiom_string_eq(); words(); }
//@after "self.delete_child(rcspec)"
    proof { lemma_snoc1(*old(self_), p0(*pmod), *old(self_), Op::DelChild(rcspec@), *self_); }
//@after-loop 9
    proof { assoc3(p0(*pmod), all(svec(*deletions, "_registers"@), f_delreg()), all(svec(*deletions, "_clusters"@), f_delclu()), all(svec(*deletions, "_interrupts"@), f_delint())); }
//@before "if let Some(expand_cluster)"
    let ghost q15_ = *self_;
//@after "self.expand_cluster(cspec, &ppath, None, None, None, None)"
    proof { lemma_snoc1(*old(self_), p15(*pmod), q15_, Op::ExpClu(cspec@, None, None, None, None), *self_); }
//@tail
    proof { if yget(*pmod, "_expand_cluster"@) is None { assert(p16(*pmod) =~= p15(*pmod)); } assert(run(*old(self_), p16(*pmod), *self_)); }
//@before "if let Some(prefix)"
    let ghost q4_ = *self_;
//@after "self.add_prefix(prefix)"
    proof { lemma_snoc1(*old(self_), p4(*pmod), q4_, Op::Prefix(prefix@), *self_); }
//@before "if let Some(suffix)"
    proof { if yget(*pmod, "_prefix"@) is None { assert(p5(*pmod) =~= p4(*pmod)); } assert(run(*old(self_), p5(*pmod), *self_)); }
    let ghost q5_ = *self_;
//@after "self.add_suffix(suffix)"
    proof { lemma_snoc1(*old(self_), p5(*pmod), q5_, Op::Suffix(suffix@), *self_); }
//@before-loop 1
    proof { lemma_nil(d0(*pmod), svec(*deletions, "_interrupts"@), f_delint()); }
//@loop 1 it1 hoistv
    invariant it1.seq() == g1_, eqs(g1_, svec(*deletions, "_interrupts"@)), run(*old(self_), d0(*pmod) + flat(svec(*deletions, "_interrupts"@), f_delint(), it1.index()), *self_), per_only_interrupt(ma(*self_), ma(*old(self_))), ma_shape(*self_, *old(self_)), ma(*old(self_)).derived_from is Some,
//@loop-start 1
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e1_ = svec(*deletions, "_interrupts"@)[it1.index() as int]; let ghost p1_ = *self_; let ghost a1_ = d0(*pmod) + flat(svec(*deletions, "_interrupts"@), f_delint(), it1.index());
//@loop-end 1
    proof { adv(*old(self_), d0(*pmod), svec(*deletions, "_interrupts"@), f_delint(), it1.index() as int, p1_, *self_); }
//@before-loop 2
    proof { lemma_nil(d1(*pmod), ents(*pmod, "_modify"@), f_modi()); }
//@loop 2 it2 hoistv
    invariant it2.seq() == g2_, eqe(g2_, ents(*pmod, "_modify"@)), run(*old(self_), d1(*pmod) + flat(ents(*pmod, "_modify"@), f_modi(), it2.index()), *self_), per_only_interrupt(ma(*self_), ma(*old(self_))), ma_shape(*self_, *old(self_)), ma(*old(self_)).derived_from is Some,
//@loop-start 2
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e2_ = ents(*pmod, "_modify"@)[it2.index() as int]; let ghost p2_ = *self_; let ghost a2_ = d1(*pmod) + flat(ents(*pmod, "_modify"@), f_modi(), it2.index());
//@loop-end 2
    proof { adv(*old(self_), d1(*pmod), ents(*pmod, "_modify"@), f_modi(), it2.index() as int, p2_, *self_); }
//@before-loop 3
    let ghost hh3_ = *rmod; proof { lemma_nil(a2_, yh(Some(hh3_)), f_modint()); }
//@loop 3 it3 hoistv
    invariant it3.seq() == g3_, eqe(g3_, yh(Some(hh3_))), run(*old(self_), a2_ + flat(yh(Some(hh3_)), f_modint(), it3.index()), *self_), per_only_interrupt(ma(*self_), ma(*old(self_))), ma_shape(*self_, *old(self_)), ma(*old(self_)).derived_from is Some,
//@loop-start 3
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e3_ = yh(Some(hh3_))[it3.index() as int]; let ghost p3_ = *self_; let ghost a3_ = a2_ + flat(yh(Some(hh3_)), f_modint(), it3.index());
//@loop-end 3
    proof { adv(*old(self_), a2_, yh(Some(hh3_)), f_modint(), it3.index() as int, p3_, *self_); }
//@after-loop 3
    proof { assert(f_modi()(e2_) == all(yh(Some(hh3_)), f_modint())); assert(run(*old(self_), a2_ + f_modi()(e2_), *self_)); }
//@before-loop 4
    proof { lemma_nil(d2(*pmod), ents(*pmod, "_add"@), f_addi()); }
//@loop 4 it4 hoistv
    invariant it4.seq() == g4_, eqe(g4_, ents(*pmod, "_add"@)), run(*old(self_), d2(*pmod) + flat(ents(*pmod, "_add"@), f_addi(), it4.index()), *self_), per_only_interrupt(ma(*self_), ma(*old(self_))), ma_shape(*self_, *old(self_)), ma(*old(self_)).derived_from is Some,
//@loop-start 4
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e4_ = ents(*pmod, "_add"@)[it4.index() as int]; let ghost p4_ = *self_; let ghost a4_ = d2(*pmod) + flat(ents(*pmod, "_add"@), f_addi(), it4.index());
//@loop-end 4
    proof { adv(*old(self_), d2(*pmod), ents(*pmod, "_add"@), f_addi(), it4.index() as int, p4_, *self_); }
//@before-loop 5
    let ghost hh5_ = *radd; proof { lemma_nil(a4_, yh(Some(hh5_)), f_addint()); }
//@loop 5 it5 hoistv
    invariant it5.seq() == g5_, eqe(g5_, yh(Some(hh5_))), run(*old(self_), a4_ + flat(yh(Some(hh5_)), f_addint(), it5.index()), *self_), per_only_interrupt(ma(*self_), ma(*old(self_))), ma_shape(*self_, *old(self_)), ma(*old(self_)).derived_from is Some,
//@loop-start 5
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e5_ = yh(Some(hh5_))[it5.index() as int]; let ghost p5_ = *self_; let ghost a5_ = a4_ + flat(yh(Some(hh5_)), f_addint(), it5.index());
//@loop-end 5
    proof { adv(*old(self_), a4_, yh(Some(hh5_)), f_addint(), it5.index() as int, p5_, *self_); }
//@after-loop 5
    proof { assert(f_addi()(e4_) == all(yh(Some(hh5_)), f_addint())); assert(run(*old(self_), a4_ + f_addi()(e4_), *self_)); }
//@before-loop 6
    proof { lemma_nil(p0(*pmod), deletions@, f_delchild_y()); }
//@loop 6 it6 hoistv
    invariant it6.seq() == g6_, eqy(g6_, deletions@), run(*old(self_), p0(*pmod) + flat(deletions@, f_delchild_y(), it6.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 6
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e6_ = deletions@[it6.index() as int]; let ghost p6_ = *self_; let ghost a6_ = p0(*pmod) + flat(deletions@, f_delchild_y(), it6.index());
//@loop-end 6
    proof { adv(*old(self_), p0(*pmod), deletions@, f_delchild_y(), it6.index() as int, p6_, *self_); }
//@before-loop 7
    proof { lemma_nil(p0(*pmod), svec(*deletions, "_registers"@), f_delreg()); }
//@loop 7 it7 hoistv
    invariant it7.seq() == g7_, eqs(g7_, svec(*deletions, "_registers"@)), run(*old(self_), p0(*pmod) + flat(svec(*deletions, "_registers"@), f_delreg(), it7.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 7
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e7_ = svec(*deletions, "_registers"@)[it7.index() as int]; let ghost p7_ = *self_; let ghost a7_ = p0(*pmod) + flat(svec(*deletions, "_registers"@), f_delreg(), it7.index());
//@loop-end 7
    proof { adv(*old(self_), p0(*pmod), svec(*deletions, "_registers"@), f_delreg(), it7.index() as int, p7_, *self_); }
//@before-loop 8
    proof { lemma_nil((p0(*pmod) + all(svec(*deletions, "_registers"@), f_delreg())), svec(*deletions, "_clusters"@), f_delclu()); }
//@loop 8 it8 hoistv
    invariant it8.seq() == g8_, eqs(g8_, svec(*deletions, "_clusters"@)), run(*old(self_), (p0(*pmod) + all(svec(*deletions, "_registers"@), f_delreg())) + flat(svec(*deletions, "_clusters"@), f_delclu(), it8.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 8
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e8_ = svec(*deletions, "_clusters"@)[it8.index() as int]; let ghost p8_ = *self_; let ghost a8_ = (p0(*pmod) + all(svec(*deletions, "_registers"@), f_delreg())) + flat(svec(*deletions, "_clusters"@), f_delclu(), it8.index());
//@loop-end 8
    proof { adv(*old(self_), (p0(*pmod) + all(svec(*deletions, "_registers"@), f_delreg())), svec(*deletions, "_clusters"@), f_delclu(), it8.index() as int, p8_, *self_); }
//@before-loop 9
    proof { lemma_nil((p0(*pmod) + all(svec(*deletions, "_registers"@), f_delreg()) + all(svec(*deletions, "_clusters"@), f_delclu())), svec(*deletions, "_interrupts"@), f_delint()); }
//@loop 9 it9 hoistv
    invariant it9.seq() == g9_, eqs(g9_, svec(*deletions, "_interrupts"@)), run(*old(self_), (p0(*pmod) + all(svec(*deletions, "_registers"@), f_delreg()) + all(svec(*deletions, "_clusters"@), f_delclu())) + flat(svec(*deletions, "_interrupts"@), f_delint(), it9.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 9
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e9_ = svec(*deletions, "_interrupts"@)[it9.index() as int]; let ghost p9_ = *self_; let ghost a9_ = (p0(*pmod) + all(svec(*deletions, "_registers"@), f_delreg()) + all(svec(*deletions, "_clusters"@), f_delclu())) + flat(svec(*deletions, "_interrupts"@), f_delint(), it9.index());
//@loop-end 9
    proof { adv(*old(self_), (p0(*pmod) + all(svec(*deletions, "_registers"@), f_delreg()) + all(svec(*deletions, "_clusters"@), f_delclu())), svec(*deletions, "_interrupts"@), f_delint(), it9.index() as int, p9_, *self_); }
//@loop 10 it10 hoistv
    invariant run(*old(self_), p0(*pmod) + all(svec(*deletions, "_registers"@), f_delreg()) + all(svec(*deletions, "_clusters"@), f_delclu()) + all(svec(*deletions, "_interrupts"@), f_delint()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@before-loop 11
    proof { if dels_p(yget(*pmod, "_delete"@)).len() == 0 { assert(p1(*pmod) =~= p0(*pmod)); } lemma_nil(p1(*pmod), ents(*pmod, "_copy"@), f_copy()); }
//@loop 11 it11 hoistv
    invariant it11.seq() == g11_, eqe(g11_, ents(*pmod, "_copy"@)), run(*old(self_), p1(*pmod) + flat(ents(*pmod, "_copy"@), f_copy(), it11.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 11
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e11_ = ents(*pmod, "_copy"@)[it11.index() as int]; let ghost p11_ = *self_; let ghost a11_ = p1(*pmod) + flat(ents(*pmod, "_copy"@), f_copy(), it11.index());
//@loop-end 11
    proof { adv(*old(self_), p1(*pmod), ents(*pmod, "_copy"@), f_copy(), it11.index() as int, p11_, *self_); }
//@before-loop 12
    let ghost hh12_ = *rcopy; proof { lemma_nil(a11_, yh(Some(hh12_)), f_copyreg()); }
//@loop 12 it12 hoistv
    invariant it12.seq() == g12_, eqe(g12_, yh(Some(hh12_))), run(*old(self_), a11_ + flat(yh(Some(hh12_)), f_copyreg(), it12.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 12
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e12_ = yh(Some(hh12_))[it12.index() as int]; let ghost p12_ = *self_; let ghost a12_ = a11_ + flat(yh(Some(hh12_)), f_copyreg(), it12.index());
//@loop-end 12
    proof { adv(*old(self_), a11_, yh(Some(hh12_)), f_copyreg(), it12.index() as int, p12_, *self_); }
//@after-loop 12
    proof { assert(f_copy()(e11_) == all(yh(Some(hh12_)), f_copyreg())); assert(run(*old(self_), a11_ + f_copy()(e11_), *self_)); }
//@before-loop 13
    let ghost hh13_ = *rcopy; proof { lemma_nil(a11_, yh(Some(hh13_)), f_copyclu()); }
//@loop 13 it13 hoistv
    invariant it13.seq() == g13_, eqe(g13_, yh(Some(hh13_))), run(*old(self_), a11_ + flat(yh(Some(hh13_)), f_copyclu(), it13.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 13
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e13_ = yh(Some(hh13_))[it13.index() as int]; let ghost p13_ = *self_; let ghost a13_ = a11_ + flat(yh(Some(hh13_)), f_copyclu(), it13.index());
//@loop-end 13
    proof { adv(*old(self_), a11_, yh(Some(hh13_)), f_copyclu(), it13.index() as int, p13_, *self_); }
//@after-loop 13
    proof { assert(f_copy()(e11_) == all(yh(Some(hh13_)), f_copyclu())); assert(run(*old(self_), a11_ + f_copy()(e11_), *self_)); }
//@before-loop 14
    proof { lemma_nil(p2(*pmod), svec(*pmod, "_strip"@), f_strip()); }
//@loop 14 it14 hoistv
    invariant it14.seq() == g14_, eqs(g14_, svec(*pmod, "_strip"@)), run(*old(self_), p2(*pmod) + flat(svec(*pmod, "_strip"@), f_strip(), it14.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 14
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e14_ = svec(*pmod, "_strip"@)[it14.index() as int]; let ghost p14_ = *self_; let ghost a14_ = p2(*pmod) + flat(svec(*pmod, "_strip"@), f_strip(), it14.index());
//@loop-end 14
    proof { adv(*old(self_), p2(*pmod), svec(*pmod, "_strip"@), f_strip(), it14.index() as int, p14_, *self_); }
//@before-loop 15
    proof { lemma_nil(p3(*pmod), svec(*pmod, "_strip_end"@), f_stripend()); }
//@loop 15 it15 hoistv
    invariant it15.seq() == g15_, eqs(g15_, svec(*pmod, "_strip_end"@)), run(*old(self_), p3(*pmod) + flat(svec(*pmod, "_strip_end"@), f_stripend(), it15.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 15
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e15_ = svec(*pmod, "_strip_end"@)[it15.index() as int]; let ghost p15_ = *self_; let ghost a15_ = p3(*pmod) + flat(svec(*pmod, "_strip_end"@), f_stripend(), it15.index());
//@loop-end 15
    proof { adv(*old(self_), p3(*pmod), svec(*pmod, "_strip_end"@), f_stripend(), it15.index() as int, p15_, *self_); }
//@before-loop 16
    proof { if yget(*pmod, "_suffix"@) is None { assert(p6(*pmod) =~= p5(*pmod)); } assert(run(*old(self_), p6(*pmod), *self_)); lemma_nil(p6(*pmod), ents(*pmod, "_modify"@), f_mod_p()); }
//@loop 16 it16 hoistv
    invariant it16.seq() == g16_, eqe(g16_, ents(*pmod, "_modify"@)), run(*old(self_), p6(*pmod) + flat(ents(*pmod, "_modify"@), f_mod_p(), it16.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 16
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e16_ = ents(*pmod, "_modify"@)[it16.index() as int]; let ghost p16_ = *self_; let ghost a16_ = p6(*pmod) + flat(ents(*pmod, "_modify"@), f_mod_p(), it16.index());
//@loop-end 16
    proof { adv(*old(self_), p6(*pmod), ents(*pmod, "_modify"@), f_mod_p(), it16.index() as int, p16_, *self_); }
//@before-loop 17
    let ghost hh17_ = *rmod; proof { lemma_nil(a16_, hents(hh17_), f_modreg()); }
//@loop 17 it17 hoistv
    invariant it17.seq() == g17_, eqe(g17_, hents(hh17_)), run(*old(self_), a16_ + flat(hents(hh17_), f_modreg(), it17.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 17
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e17_ = hents(hh17_)[it17.index() as int]; let ghost p17_ = *self_; let ghost a17_ = a16_ + flat(hents(hh17_), f_modreg(), it17.index());
//@loop-end 17
    proof { adv(*old(self_), a16_, hents(hh17_), f_modreg(), it17.index() as int, p17_, *self_); }
//@after-loop 17
    proof { assert(f_mod_p()(e16_) == all(hents(hh17_), f_modreg())); assert(run(*old(self_), a16_ + f_mod_p()(e16_), *self_)); }
//@before-loop 18
    let ghost hh18_ = *rmod; proof { lemma_nil(a16_, hents(hh18_), f_modint()); }
//@loop 18 it18 hoistv
    invariant it18.seq() == g18_, eqe(g18_, hents(hh18_)), run(*old(self_), a16_ + flat(hents(hh18_), f_modint(), it18.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 18
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e18_ = hents(hh18_)[it18.index() as int]; let ghost p18_ = *self_; let ghost a18_ = a16_ + flat(hents(hh18_), f_modint(), it18.index());
//@loop-end 18
    proof { adv(*old(self_), a16_, hents(hh18_), f_modint(), it18.index() as int, p18_, *self_); }
//@after-loop 18
    proof { assert(f_mod_p()(e16_) == all(hents(hh18_), f_modint())); assert(run(*old(self_), a16_ + f_mod_p()(e16_), *self_)); }
//@before-loop 19
    let ghost hh19_ = *rmod; proof { lemma_nil(a16_, hents(hh19_), f_modclu()); }
//@loop 19 it19 hoistv
    invariant it19.seq() == g19_, eqe(g19_, hents(hh19_)), run(*old(self_), a16_ + flat(hents(hh19_), f_modclu(), it19.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 19
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e19_ = hents(hh19_)[it19.index() as int]; let ghost p19_ = *self_; let ghost a19_ = a16_ + flat(hents(hh19_), f_modclu(), it19.index());
//@loop-end 19
    proof { adv(*old(self_), a16_, hents(hh19_), f_modclu(), it19.index() as int, p19_, *self_); }
//@after-loop 19
    proof { assert(f_mod_p()(e16_) == all(hents(hh19_), f_modclu())); assert(run(*old(self_), a16_ + f_mod_p()(e16_), *self_)); }
//@before-loop 20
    proof { lemma_nil(p7(*pmod), svec(*pmod, "_clear_fields"@), f_clear()); }
//@loop 20 it20 hoistv
    invariant it20.seq() == g20_, eqs(g20_, svec(*pmod, "_clear_fields"@)), run(*old(self_), p7(*pmod) + flat(svec(*pmod, "_clear_fields"@), f_clear(), it20.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 20
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e20_ = svec(*pmod, "_clear_fields"@)[it20.index() as int]; let ghost p20_ = *self_; let ghost a20_ = p7(*pmod) + flat(svec(*pmod, "_clear_fields"@), f_clear(), it20.index());
//@loop-end 20
    proof { adv(*old(self_), p7(*pmod), svec(*pmod, "_clear_fields"@), f_clear(), it20.index() as int, p20_, *self_); }
//@before-loop 21
    proof { lemma_nil(p8(*pmod), ents(*pmod, "_add"@), f_add_p()); }
//@loop 21 it21 hoistv
    invariant it21.seq() == g21_, eqe(g21_, ents(*pmod, "_add"@)), run(*old(self_), p8(*pmod) + flat(ents(*pmod, "_add"@), f_add_p(), it21.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 21
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e21_ = ents(*pmod, "_add"@)[it21.index() as int]; let ghost p21_ = *self_; let ghost a21_ = p8(*pmod) + flat(ents(*pmod, "_add"@), f_add_p(), it21.index());
//@loop-end 21
    proof { adv(*old(self_), p8(*pmod), ents(*pmod, "_add"@), f_add_p(), it21.index() as int, p21_, *self_); }
//@before-loop 22
    let ghost hh22_ = *radd; proof { lemma_nil(a21_, hents(hh22_), f_addreg()); }
//@loop 22 it22 hoistv
    invariant it22.seq() == g22_, eqe(g22_, hents(hh22_)), run(*old(self_), a21_ + flat(hents(hh22_), f_addreg(), it22.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 22
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e22_ = hents(hh22_)[it22.index() as int]; let ghost p22_ = *self_; let ghost a22_ = a21_ + flat(hents(hh22_), f_addreg(), it22.index());
//@loop-end 22
    proof { adv(*old(self_), a21_, hents(hh22_), f_addreg(), it22.index() as int, p22_, *self_); }
//@after-loop 22
    proof { assert(f_add_p()(e21_) == all(hents(hh22_), f_addreg())); assert(run(*old(self_), a21_ + f_add_p()(e21_), *self_)); }
//@before-loop 23
    let ghost hh23_ = *radd; proof { lemma_nil(a21_, hents(hh23_), f_addclu()); }
//@loop 23 it23 hoistv
    invariant it23.seq() == g23_, eqe(g23_, hents(hh23_)), run(*old(self_), a21_ + flat(hents(hh23_), f_addclu(), it23.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 23
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e23_ = hents(hh23_)[it23.index() as int]; let ghost p23_ = *self_; let ghost a23_ = a21_ + flat(hents(hh23_), f_addclu(), it23.index());
//@loop-end 23
    proof { adv(*old(self_), a21_, hents(hh23_), f_addclu(), it23.index() as int, p23_, *self_); }
//@after-loop 23
    proof { assert(f_add_p()(e21_) == all(hents(hh23_), f_addclu())); assert(run(*old(self_), a21_ + f_add_p()(e21_), *self_)); }
//@before-loop 24
    let ghost hh24_ = *radd; proof { lemma_nil(a21_, hents(hh24_), f_addint()); }
//@loop 24 it24 hoistv
    invariant it24.seq() == g24_, eqe(g24_, hents(hh24_)), run(*old(self_), a21_ + flat(hents(hh24_), f_addint(), it24.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 24
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e24_ = hents(hh24_)[it24.index() as int]; let ghost p24_ = *self_; let ghost a24_ = a21_ + flat(hents(hh24_), f_addint(), it24.index());
//@loop-end 24
    proof { adv(*old(self_), a21_, hents(hh24_), f_addint(), it24.index() as int, p24_, *self_); }
//@after-loop 24
    proof { assert(f_add_p()(e21_) == all(hents(hh24_), f_addint())); assert(run(*old(self_), a21_ + f_add_p()(e21_), *self_)); }
//@before-loop 25
    proof { lemma_nil(p9(*pmod), ents(*pmod, "_derive"@), f_der()); }
//@loop 25 it25 hoistv
    invariant it25.seq() == g25_, eqe(g25_, ents(*pmod, "_derive"@)), run(*old(self_), p9(*pmod) + flat(ents(*pmod, "_derive"@), f_der(), it25.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 25
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e25_ = ents(*pmod, "_derive"@)[it25.index() as int]; let ghost p25_ = *self_; let ghost a25_ = p9(*pmod) + flat(ents(*pmod, "_derive"@), f_der(), it25.index());
//@loop-end 25
    proof { adv(*old(self_), p9(*pmod), ents(*pmod, "_derive"@), f_der(), it25.index() as int, p25_, *self_); }
//@before-loop 26
    let ghost hh26_ = *rderive; proof { lemma_nil(a25_, yh(Some(hh26_)), f_derreg()); }
//@loop 26 it26 hoistv
    invariant it26.seq() == g26_, eqe(g26_, yh(Some(hh26_))), run(*old(self_), a25_ + flat(yh(Some(hh26_)), f_derreg(), it26.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 26
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e26_ = yh(Some(hh26_))[it26.index() as int]; let ghost p26_ = *self_; let ghost a26_ = a25_ + flat(yh(Some(hh26_)), f_derreg(), it26.index());
//@loop-end 26
    proof { adv(*old(self_), a25_, yh(Some(hh26_)), f_derreg(), it26.index() as int, p26_, *self_); }
//@after-loop 26
    proof { assert(f_der()(e25_) == all(yh(Some(hh26_)), f_derreg())); assert(run(*old(self_), a25_ + f_der()(e25_), *self_)); }
//@before-loop 27
    let ghost hh27_ = *rderive; proof { lemma_nil(a25_, yh(Some(hh27_)), f_derclu()); }
//@loop 27 it27 hoistv
    invariant it27.seq() == g27_, eqe(g27_, yh(Some(hh27_))), run(*old(self_), a25_ + flat(yh(Some(hh27_)), f_derclu(), it27.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 27
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e27_ = yh(Some(hh27_))[it27.index() as int]; let ghost p27_ = *self_; let ghost a27_ = a25_ + flat(yh(Some(hh27_)), f_derclu(), it27.index());
//@loop-end 27
    proof { adv(*old(self_), a25_, yh(Some(hh27_)), f_derclu(), it27.index() as int, p27_, *self_); }
//@after-loop 27
    proof { assert(f_der()(e25_) == all(yh(Some(hh27_)), f_derclu())); assert(run(*old(self_), a25_ + f_der()(e25_), *self_)); }
//@before-loop 28
    proof { lemma_nil(p10(*pmod), hents(*pmod), f_child()); }
//@loop 28 it28 hoistv
    invariant it28.seq() == g28_, eqe(g28_, hents(*pmod)), run(*old(self_), p10(*pmod) + flat(hents(*pmod), f_child(), it28.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 28
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e28_ = hents(*pmod)[it28.index() as int]; let ghost p28_ = *self_; let ghost a28_ = p10(*pmod) + flat(hents(*pmod), f_child(), it28.index());
//@loop-end 28
    proof { adv(*old(self_), p10(*pmod), hents(*pmod), f_child(), it28.index() as int, p28_, *self_); }
//@before-loop 29
    proof { lemma_nil(p11(*pmod), ents(*pmod, "_expand_array"@), f_exparr()); }
//@loop 29 it29 hoistv
    invariant it29.seq() == g29_, eqe(g29_, ents(*pmod, "_expand_array"@)), run(*old(self_), p11(*pmod) + flat(ents(*pmod, "_expand_array"@), f_exparr(), it29.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 29
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e29_ = ents(*pmod, "_expand_array"@)[it29.index() as int]; let ghost p29_ = *self_; let ghost a29_ = p11(*pmod) + flat(ents(*pmod, "_expand_array"@), f_exparr(), it29.index());
//@loop-end 29
    proof { adv(*old(self_), p11(*pmod), ents(*pmod, "_expand_array"@), f_exparr(), it29.index() as int, p29_, *self_); }
//@before-loop 30
    proof { lemma_nil(p12(*pmod), ents(*pmod, "_array"@), f_arr()); }
//@loop 30 it30 hoistv
    invariant it30.seq() == g30_, eqe(g30_, ents(*pmod, "_array"@)), run(*old(self_), p12(*pmod) + flat(ents(*pmod, "_array"@), f_arr(), it30.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 30
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e30_ = ents(*pmod, "_array"@)[it30.index() as int]; let ghost p30_ = *self_; let ghost a30_ = p12(*pmod) + flat(ents(*pmod, "_array"@), f_arr(), it30.index());
//@loop-end 30
    proof { adv(*old(self_), p12(*pmod), ents(*pmod, "_array"@), f_arr(), it30.index() as int, p30_, *self_); }
//@before-loop 31
    proof { lemma_nil(p13(*pmod), ents(*pmod, "_cluster"@), f_col()); }
//@loop 31 it31 hoistv
    invariant it31.seq() == g31_, eqe(g31_, ents(*pmod, "_cluster"@)), run(*old(self_), p13(*pmod) + flat(ents(*pmod, "_cluster"@), f_col(), it31.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 31
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e31_ = ents(*pmod, "_cluster"@)[it31.index() as int]; let ghost p31_ = *self_; let ghost a31_ = p13(*pmod) + flat(ents(*pmod, "_cluster"@), f_col(), it31.index());
//@loop-end 31
    proof { adv(*old(self_), p13(*pmod), ents(*pmod, "_cluster"@), f_col(), it31.index() as int, p31_, *self_); }
//@before-loop 32
    proof { lemma_nil(p14(*pmod), ents(*pmod, "_clusters"@), f_clu()); }
//@loop 32 it32 hoistv
    invariant it32.seq() == g32_, eqe(g32_, ents(*pmod, "_clusters"@)), run(*old(self_), p14(*pmod) + flat(ents(*pmod, "_clusters"@), f_clu(), it32.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 32
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e32_ = ents(*pmod, "_clusters"@)[it32.index() as int]; let ghost p32_ = *self_; let ghost a32_ = p14(*pmod) + flat(ents(*pmod, "_clusters"@), f_clu(), it32.index());
//@loop-end 32
    proof { adv(*old(self_), p14(*pmod), ents(*pmod, "_clusters"@), f_clu(), it32.index() as int, p32_, *self_); }
//@before-loop 33
    proof { lemma_nil(p15(*pmod), cspec@, f_expclu_y()); }
//@loop 33 it33 hoistv
    invariant it33.seq() == g33_, eqy(g33_, cspec@), run(*old(self_), p15(*pmod) + flat(cspec@, f_expclu_y(), it33.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 33
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e33_ = cspec@[it33.index() as int]; let ghost p33_ = *self_; let ghost a33_ = p15(*pmod) + flat(cspec@, f_expclu_y(), it33.index());
//@loop-end 33
    proof { adv(*old(self_), p15(*pmod), cspec@, f_expclu_y(), it33.index() as int, p33_, *self_); }
//@before-loop 34
    let ghost hh34_ = *cspec; proof { lemma_nil(p15(*pmod), hents(hh34_), f_expclu()); }
//@loop 34 it34 hoistv
    invariant it34.seq() == g34_, eqe(g34_, hents(hh34_)), run(*old(self_), p15(*pmod) + flat(hents(hh34_), f_expclu(), it34.index()), *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 34
    broadcast use axiom_str_ext; proof { words(); }
    let ghost e34_ = hents(hh34_)[it34.index() as int]; let ghost p34_ = *self_; let ghost a34_ = p15(*pmod) + flat(hents(hh34_), f_expclu(), it34.index());
//@loop-end 34
    proof { adv(*old(self_), p15(*pmod), hents(hh34_), f_expclu(), it34.index() as int, p34_, *self_); }
//@loop 35 it35 hoistv
    invariant it35.seq() == g35_, eqe(g35_, hents(*cspec)), so(preindex) == os(last_of(hents(*cspec), "_preindex"@, it35.index())), so(postindex) == os(last_of(hents(*cspec), "_postindex"@, it35.index())), zeroindex == ob(last_of(hents(*cspec), "_zeroindex"@, it35.index())), noprefix == ob(last_of(hents(*cspec), "_noprefix"@, it35.index())), *self_ == p34_, run(*old(self_), a34_, *self_), ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),
//@loop-start 35
    broadcast use axiom_str_ext; proof { words(); }
//@end
}
fn main(){}
