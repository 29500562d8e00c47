// Mutable iteration over the registers / clusters of a block, and over peripherals and interrupts.
//@wrap iter_mut
//@methods Peripheral: regs_mut clstrs_mut iter_registers iter_clusters registers_mut clusters_mut all_regs_mut all_registers_mut iter_interrupts
//@methods Cluster: regs_mut clstrs_mut iter_registers iter_clusters registers_mut clusters_mut all_regs_mut all_registers_mut
//@methods Device: iter_peripherals
verus! {
pub trait IterMutX<T> { fn iter_mut_v<'a>(&'a mut self) -> Vec<&'a mut T>; }
impl<T> IterMutX<T> for Vec<T> {
    // TRUSTED: Vec::iter_mut yields every element once, in order
    #[verifier::external_body]
    fn iter_mut_v<'a>(&'a mut self) -> (r: Vec<&'a mut T>) ensures refs(old(self)@, final(self)@, r@, all_p()) { self.iter_mut().collect() }
}
//@each K: Register Cluster
#[verifier::prophetic]
pub open spec fn refs_$K(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, v: Seq<&mut $K>, p: spec_fn($K) -> bool) -> bool {
    &&& t.len() == s.len()
    &&& v.len() == cnt(s, sel_$K(p), s.len() as int)
    &&& forall|i: int| #![trigger t[i]] #![trigger s[i]] 0 <= i < s.len() ==> match as_$K(s[i]) {
            Some(r) => if p(r) {
                    let c = cnt(s, sel_$K(p), i);
                    0 <= c < v.len() && *v[c] == r && t[i] == RegisterCluster::$K(*final(v[c]))
                } else { t[i] == s[i] },
            None => t[i] == s[i] }
}
pub broadcast proof fn lemma_none_$K(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, v: Seq<&mut $K>, p: spec_fn($K) -> bool)
    requires #[trigger] refs_$K(s, t, v, p)
    ensures v.len() == 0 <==> !any_$K(s, p), v.len() == 0 ==> t =~= s,
{ lemma_cnt(s, sel_$K(p), s.len() as int); if v.len() == 0 { assert forall|i: int| 0 <= i < s.len() implies t[i] == s[i] by { assert(!sel_$K(p)(s[i])); } } }
pub open spec fn upd_$K(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, p: spec_fn($K) -> bool, rel: spec_fn($K, $K) -> bool) -> bool {
    &&& t.len() == s.len()
    &&& forall|i: int| #![trigger t[i]] 0 <= i < s.len() ==> match as_$K(s[i]) {
            Some(r) => if p(r) { as_$K(t[i]) is Some && rel(r, as_$K(t[i]).unwrap()) } else { t[i] == s[i] },
            None => t[i] == s[i] }
}
pub open spec fn any_$K(s: Seq<RegisterCluster>, p: spec_fn($K) -> bool) -> bool { any_sel(s, sel_$K(p)) }
pub proof fn lemma_comp_$K(s: Seq<RegisterCluster>, u: Seq<$K>, p: spec_fn($K) -> bool, n: int)
    requires 0 <= n <= s.len(),
        forall|i: int| 0 <= i < s.len() ==> (as_$K(#[trigger] s[i]) is Some ==> { let c = cnt(s, sel_$K(all_p()), i); 0 <= c < u.len() && u[c] == as_$K(s[i]).unwrap() }),
    ensures cnt(s, sel_$K(p), n) == cnt(u, p, cnt(s, sel_$K(all_p()), n)), 0 <= cnt(s, sel_$K(all_p()), n)
    decreases n
{ if n > 0 { lemma_comp_$K(s, u, p, n - 1); let x = s[n - 1]; assert(sel_$K(all_p::<$K>())(x) == (as_$K(x) is Some)); } }
proof fn lemma_refs_$K(s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, v: Seq<&mut $K>, r: Seq<&mut $K>, spec: Seq<char>)
    requires refs_$K(s, t, v, all_p()), matched_rel(v, r, spec)
    ensures refs_$K(s, t, r, named(spec))
{
    let u = curs(v);
    assert forall|i: int| 0 <= i < s.len() && as_$K(#[trigger] s[i]) is Some implies { let c = cnt(s, sel_$K(all_p()), i); 0 <= c < u.len() && u[c] == as_$K(s[i]).unwrap() } by { assert(t[i] == t[i]); }
    assert forall|n: int| 0 <= n <= s.len() implies #[trigger] cnt(s, sel_$K(named::<$K>(spec)), n) == cnt(u, named(spec), cnt(s, sel_$K(all_p()), n)) by { lemma_comp_$K(s, u, named(spec), n); }
    assert forall|i: int| #![trigger t[i]] #![trigger s[i]] 0 <= i < s.len() implies (match as_$K(s[i]) {
            Some(x) => if named::<$K>(spec)(x) {
                    let c = cnt(s, sel_$K(named(spec)), i);
                    0 <= c < r.len() && *r[c] == x && t[i] == RegisterCluster::$K(*final(r[c]))
                } else { t[i] == s[i] },
            None => t[i] == s[i] }) by {
        if as_$K(s[i]) is Some { let c0 = cnt(s, sel_$K(all_p()), i); assert(*v[c0] == as_$K(s[i]).unwrap()); }
    }
}
pub proof fn lemma_refs_$K_all(s: Seq<RegisterCluster>, v: Seq<&mut $K>, r: Seq<&mut $K>, spec: Seq<char>)
    requires matched_rel(v, r, spec)
    ensures forall|t: Seq<RegisterCluster>| #![trigger refs_$K(s, t, r, named(spec))] #![trigger refs_$K(s, t, v, all_p())] refs_$K(s, t, v, all_p()) ==> refs_$K(s, t, r, named(spec))
{ assert forall|t: Seq<RegisterCluster>| #[trigger] refs_$K(s, t, v, all_p()) implies refs_$K(s, t, r, named(spec)) by { lemma_refs_$K(s, t, v, r, spec); } }
//@endeach
}
verus! {
//@each T: Peripheral Cluster
// TRUSTED (svd-rs): registers_mut / clusters_mut yield every direct child of that kind once, in order
#[verifier::external_body]
pub fn $T__registers_mut<'a>(self_: &'a mut $T) -> (r: Vec<&'a mut Register>)
    ensures refs_Register(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), r@, all_p()), $T_kids_frame(*final(self_), *old(self_)),
        $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
{ self_.registers_mut().collect() }
#[verifier::external_body]
pub fn $T__clusters_mut<'a>(self_: &'a mut $T) -> (r: Vec<&'a mut Cluster>)
    ensures refs_Cluster(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), r@, all_p()), $T_kids_frame(*final(self_), *old(self_)),
        $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
{ self_.clusters_mut().collect() }
//@fn src/patch/peripheral.rs | RegisterBlockExt for $T | regs_mut
//@self $T
//@sig pub fn $T__regs_mut<'a>(self_: &'a mut $T) -> (r: Vec<&'a mut Register>)
//@spec
    ensures refs_Register(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), r@, all_p()), $T_kids_frame(*final(self_), *old(self_)),
        $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
//@end
//@fn src/patch/peripheral.rs | RegisterBlockExt for $T | clstrs_mut
//@self $T
//@sig pub fn $T__clstrs_mut<'a>(self_: &'a mut $T) -> (r: Vec<&'a mut Cluster>)
//@spec
    ensures refs_Cluster(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), r@, all_p()), $T_kids_frame(*final(self_), *old(self_)),
        $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | iter_registers
//@self $T
//@sig pub fn $T__iter_registers<'a>(self_: &'a mut $T, spec: &str) -> (r: Vec<&'a mut Register>)
//@sub self.regs_mut().matched(spec) =>> { let v_ = $T__regs_mut(self_); let ghost gv_ = v_@; let r_ = v_.matched(spec); proof { lemma_refs_Register_all(s0_, gv_, r_@, spec@); } r_ }
//@spec
    ensures refs_Register(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), r@, named(spec@)), $T_kids_frame(*final(self_), *old(self_)),
        $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
//@start
    let ghost s0_ = kidz($T_kids(*self_));
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | iter_clusters
//@self $T
//@sig pub fn $T__iter_clusters<'a>(self_: &'a mut $T, spec: &str) -> (r: Vec<&'a mut Cluster>)
//@sub self.clstrs_mut().matched(spec) =>> { let v_ = $T__clstrs_mut(self_); let ghost gv_ = v_@; let r_ = v_.matched(spec); proof { lemma_refs_Cluster_all(s0_, gv_, r_@, spec@); } r_ }
//@spec
    ensures refs_Cluster(kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), r@, named(spec@)), $T_kids_frame(*final(self_), *old(self_)),
        $T_kids(*final(self_)) is Some == $T_kids(*old(self_)) is Some,
//@start
    let ghost s0_ = kidz($T_kids(*self_));
//@end
// all registers below the block, in document order, and all that is left when they are taken out
pub uninterp spec fn $T_flat(p: $T) -> Seq<Register>;
pub uninterp spec fn $T_rest(p: $T) -> int;
// TRUSTED (svd-rs): all_registers_mut yields every register below the block once, in order
#[verifier::external_body]
pub fn $T__all_registers_mut<'a>(self_: &'a mut $T) -> (r: Vec<&'a mut Register>)
    ensures refs($T_flat(*old(self_)), $T_flat(*final(self_)), r@, all_p()), $T_kids_frame(*final(self_), *old(self_)),
        $T_rest(*final(self_)) == $T_rest(*old(self_)),
{ self_.all_registers_mut().collect() }
//@fn src/patch/peripheral.rs | RegisterBlockExt for $T | all_regs_mut
//@self $T
//@sig pub fn $T__all_regs_mut<'a>(self_: &'a mut $T) -> (r: Vec<&'a mut Register>)
//@spec
    ensures refs($T_flat(*old(self_)), $T_flat(*final(self_)), r@, all_p()), $T_kids_frame(*final(self_), *old(self_)),
        $T_rest(*final(self_)) == $T_rest(*old(self_)),
//@end
//@endeach
//@fn src/patch/device.rs | DeviceExt for Device | iter_peripherals
//@self Device
//@sig pub fn Device__iter_peripherals<'a>(self_: &'a mut Device, spec: &str) -> (r: Vec<&'a mut Peripheral>)
//@sub self.peripherals.iter_mut().matched(spec) =>> { let v_ = self_.peripherals.iter_mut_v(); let ghost gv_ = v_@; let r_ = v_.matched(spec); proof { lemma_refs_matched_all(s0_, gv_, r_@, spec@); } r_ }
//@spec
    ensures refs(old(self_).peripherals@, final(self_).peripherals@, r@, named(spec@)), dev_only_peripherals(*final(self_), *old(self_)),
//@start
    let ghost s0_ = self_.peripherals@;
//@end
//@fn src/patch/peripheral.rs | InterruptExt for Peripheral | iter_interrupts
//@self Peripheral
//@sig pub fn Peripheral__iter_interrupts<'a>(self_: &'a mut Peripheral, spec: &str) -> (r: Vec<&'a mut Interrupt>)
//@sub self.interrupt.iter_mut().matched(spec) =>> { let v_ = self_.interrupt.iter_mut_v(); let ghost gv_ = v_@; let r_ = v_.matched(spec); proof { lemma_refs_matched_all(s0_, gv_, r_@, spec@); } r_ }
//@spec
    ensures refs(ma(*old(self_)).interrupt@, ma(*final(self_)).interrupt@, r@, named(spec@)),
        per_only_interrupt(ma(*final(self_)), ma(*old(self_))), ma_shape(*final(self_), *old(self_)),
//@start
    let ghost s0_ = ma(*self_).interrupt@;
//@end
}
