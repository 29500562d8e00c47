//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_block.rs p_iter.rs
//@import p_find.rs
//@use p_text.rs p_clone.rs p_dev.rs
//@wrap into
verus! {
//@type src/patch/mod.rs | VAL_LVL
pub trait IntoX { fn into_v(&self) -> String; }
impl IntoX for str { #[verifier::external_body] fn into_v(&self) -> (r: String) ensures r@ == self@ { self.into() } }
// OLD keeps its name, base address and interrupts, and is derived from NEW
pub open spec fn shell(o: Peripheral, x: Peripheral, pold: Seq<char>, pnew: Seq<char>) -> bool {
    let (a, b) = (ma(o), ma(x));
    x is Single && b.name@ == pold && b.base_address == a.base_address && b.interrupt@ =~= a.interrupt@ && derives(x, pnew)
    && b.display_name is None && b.version is None && b.description is None && b.alternate_peripheral is None && b.group_name is None && b.prepend_to_name is None
    && b.append_to_name is None && b.header_struct_name is None && rp_none(b.default_register_properties) && b.address_block is None && b.registers is None
}
// OLD's contents under NEW's name, base address and interrupts
pub open spec fn heir(o: Peripheral, n: Peripheral, x: Peripheral) -> bool {
    ma_shape(x, o) && $but(per, ma(x), ma(o), name base_address interrupt) && ma(x).name == ma(n).name && ma(x).base_address == ma(n).base_address && ma(x).interrupt == ma(n).interrupt
}
pub open spec fn rebased(s: Seq<Peripheral>, t: Seq<Peripheral>, pnew: Seq<char>, pold: Seq<char>, io: int, n: int, m: Seq<Peripheral>, u: Seq<Peripheral>) -> bool {
    &&& at_name(s, pold, io) && at_name(s, pnew, n)
    &&& m.len() == s.len() && (forall|i: int| 0 <= i < s.len() && i != io && i != n ==> #[trigger] m[i] == s[i]) && shell(s[io], m[io], pold, pnew) && heir(s[io], s[n], m[n])
    &&& repointed_s(m, u, pold, pnew)
    &&& t == moved(u, n, min_dep(m, pold, io, m.len() as int))
}
//@fn src/patch/device.rs | DeviceExt for Device | rebase_peripheral
//@self Device
//@attr #[verifier::loop_isolation(false)]
//@spec
    ensures !has_name(old(self_).peripherals@, pold@) || !has_name(old(self_).peripherals@, pnew@) ==> r is Err,
        r is Ok ==> dev_only_peripherals(*final(self_), *old(self_)),
        r is Ok && pnew@ != pold@ ==> exists|io: int, n: int, m: Seq<Peripheral>, u: Seq<Peripheral>| #[trigger] rebased(old(self_).peripherals@, final(self_).peripherals@, pnew@, pold@, io, n, m, u)
//@start
    proof { axiom_string_eq(); }
    let ghost s0_ = self_.peripherals@;
//@closure 1 |$1: &(usize, &mut Peripheral)| -> (b: bool)
    ensures b == mut_named(*$1, pold@)
//@closure 3 |$1: &(usize, &mut Peripheral)| -> (b: bool)
    ensures b == mut_named(*$1, pnew@)
//@before "let (new_pos, new)"
    let ghost s1_ = self_.peripherals@;
    proof { assert(forall|i: int| 0 <= i < s0_.len() && i != min_pos ==> #[trigger] s1_[i] == s0_[i]); assert(at_name(s0_, pold@, min_pos as int)); }
//@before "d.name.clone_from"
    proof { assert(at_name(s1_, pnew@, new_pos as int)); assert(s1_.len() == s0_.len()); assert(forall|i: int| 0 <= i < s0_.len() && i != min_pos ==> #[trigger] s0_[i] == s1_[i]);  assert(pnew@ != pold@ ==> at_name(s0_, pnew@, new_pos as int)); }
//@before-loop 1
    let ghost m_ = self_.peripherals@; let ghost io_ = min_pos as int;
//@loop 1 it hoist
    invariant it.seq() == g1_, min_pos == min_dep(m_, pold@, io_, it.index()), forall|j: int| 0 <= j < it.index() ==> repointed(m_[j], *final(#[trigger] g1_[j].1), pold@, pnew@),
//@after-loop 1
    let ghost u_ = self_.peripherals@;
    proof { lemma_min_dep(m_, pold@, io_, m_.len() as int); }
//@tail
    proof { assert(self_.peripherals@ =~= moved(u_, new_pos as int, min_pos as int)); if pnew@ != pold@ { assert(at_name(s0_, pold@, io_)); assert(at_name(s0_, pnew@, new_pos as int)); 
 assert(forall|i: int| 0 <= i < s0_.len() && i != io_ && i != new_pos ==> #[trigger] m_[i] == s0_[i]); assert(shell(s0_[io_], m_[io_], pold@, pnew@)); assert(heir(s0_[io_], s0_[new_pos as int], m_[new_pos as int])); assert(repointed_s(m_, u_, pold@, pnew@)); assert(rebased(s0_, self_.peripherals@, pnew@, pold@, io_, new_pos as int, m_, u_)); } }
//@end
}
fn main(){}
