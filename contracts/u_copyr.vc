//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_wc.rs
//@use p_text.rs
//@import p_make.rs p_block.rs p_iter.rs p_kids.rs p_find.rs
//@use p_clone.rs p_regs.rs
verus! {
// what is changed besides: the given name; no display name unless one is given
pub open spec fn copy_info(h: Hash, p: &BlockPath, n: Seq<char>, m: RegB) -> bool {
    exists|m0: RegB| #[trigger] reg_made(h, Some(p), m0) && m == (RegB { name: m.name, display_name: m.display_name, ..m0 }) && tx(m.name) == Some(n)
        && (if yget(h, "displayName"@) is None { tx(m.display_name) == Some(Seq::<char>::empty()) } else { m.display_name == m0.display_name })
}
pub open spec fn copied(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, n: Seq<char>, src: Register, m: RegB, y: RegisterInfo, k: int) -> bool {
    &&& reg_mod(ma(src), m, y)
    &&& 0 <= k < t.len() && as_Register(t[k]) is Some && ma_shape(as_Register(t[k]).unwrap(), src)
    &&& if has_Register(s, n) { at_Register(s, n, k) && t == s.update(k, t[k]) && $but(reg, ma(as_Register(t[k]).unwrap()), y, address_offset) && ma(as_Register(t[k]).unwrap()).address_offset == ma(as_Register(s[k]).unwrap()).address_offset }
        else { k == s.len() && t == s.push(t[k]) && ma(as_Register(t[k]).unwrap()) == y }
}
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | copy_register
//@self $T
//@spec
    ensures h_str(*rcopy, "_from"@) is None ==> r is Err,
        h_str(*rcopy, "_from"@) is Some && !has_Register(kidz($T_kids(*old(self_))), h_str(*rcopy, "_from"@).unwrap()) ==> r is Err,
        r is Ok ==> $T_kids_frame(*final(self_), *old(self_)) && $T_kids(*final(self_)) is Some && exists|j: int, m: RegB, y: RegisterInfo, k: int|
            #[trigger] at_Register(kidz($T_kids(*old(self_))), h_str(*rcopy, "_from"@).unwrap(), j) && copy_info(*rcopy, bpath, rname@, m)
            && #[trigger] copied(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), rname@, as_Register(kidz($T_kids(*old(self_)))[j]).unwrap(), m, y, k),
//@closure 2 |$1: &&Register| -> (b: bool)
    ensures b == ($1.nm() == srcname@)
//@closure 4 |$1: &&mut Register| -> (b: bool)
    ensures b == mref_named(*$1, rname@)
//@start
    broadcast use {lemma_first_ref_Register, lemma_first_mut_Register, lemma_none_ref_Register, lemma_none_mut_Register}; proof { axiom_string_eq(); }
    let ghost s0_ = kidz($T_kids(*self_)); let ghost o0_ = *self_;
//@before "let mut fixes"
    let ghost src_ = source;
    let ghost j_ = choose|i: int| 0 <= i < s0_.len() && as_Register(#[trigger] s0_[i]) == Some(source) && source.nm() == srcname@ && forall|l: int| 0 <= l < i && as_Register(#[trigger] s0_[l]) is Some ==> as_Register(s0_[l]).unwrap().nm() != srcname@;
    proof { assert(at_Register(s0_, srcname@, j_)); }
//@before "source.modify_from"
    let ghost m_ = reg_b(fixes);
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(copy_info(*rcopy, bpath, rname@, m_)); }
//@before "if let Some(ptag) ="
    let ghost y_ = ma(source);
//@tail
    proof {
        let t = kidz($T_kids(*self_));
        let k = if has_Register(s0_, rname@) { choose|i: int| 0 <= i < s0_.len() && as_Register(#[trigger] s0_[i]) is Some && as_Register(s0_[i]).unwrap().nm() == rname@ && t == s0_.update(i, t[i]) && forall|l: int| 0 <= l < i && as_Register(#[trigger] s0_[l]) is Some ==> as_Register(s0_[l]).unwrap().nm() != rname@ } else { s0_.len() as int };
        if has_Register(s0_, rname@) { assert(at_Register(s0_, rname@, k)); } else { assert(t =~= s0_.push(t[k])); }
        assert(copied(s0_, t, rname@, src_, m_, y_, k));
        assert(src_ == as_Register(s0_[j_]).unwrap()); assert(srcname@ == h_str(*rcopy, "_from"@).unwrap()); assert($T_kids_frame(*self_, o0_)); assert($T_kids(*self_) is Some);
        assert(at_Register(s0_, h_str(*rcopy, "_from"@).unwrap(), j_) && copy_info(*rcopy, bpath, rname@, m_) && copied(s0_, t, rname@, as_Register(s0_[j_]).unwrap(), m_, y_, k));
    }
//@end
//@endeach
}
fn main(){}
