// A "register block" is a peripheral or a cluster; its children in document order.
//@methods Peripheral: children_mut children
//@methods Cluster: children_mut children
verus! {
#[verifier::external_body]
pub fn matchname(name: &str, spec: &str) -> (r: bool) ensures r == matches(name@, spec@) { unimplemented!() }

pub open spec fn ma_shape<T>(a: MaybeArray<T>, b: MaybeArray<T>) -> bool {
    match (a, b) { (MaybeArray::Single(_), MaybeArray::Single(_)) => true, (MaybeArray::Array(_, d), MaybeArray::Array(_, e)) => d == e, _ => false }
}
pub open spec fn rc_name(rc: RegisterCluster) -> Seq<char> {
    match rc { RegisterCluster::Register(r) => ma(r).name@, RegisterCluster::Cluster(c) => ma(c).name@ }
}
pub assume_specification [RegisterCluster::name](rc: &RegisterCluster) -> (r: &String)
    ensures r@ == rc_name(*rc);

pub open spec fn as_Register(rc: RegisterCluster) -> Option<Register> { match rc { RegisterCluster::Register(r) => Some(r), _ => None } }
pub open spec fn as_Cluster(rc: RegisterCluster) -> Option<Cluster> { match rc { RegisterCluster::Cluster(r) => Some(r), _ => None } }
//@each K: Register Cluster
// the selected $Ks among the children
pub open spec fn sel_$K(p: spec_fn($K) -> bool) -> spec_fn(RegisterCluster) -> bool { |rc: RegisterCluster| as_$K(rc) is Some && p(as_$K(rc).unwrap()) }
//@endeach
pub open spec fn kidz(k: Option<Seq<RegisterCluster>>) -> Seq<RegisterCluster> { match k { Some(s) => s, None => Seq::empty() } }
pub open spec fn Peripheral_kids(p: Peripheral) -> Option<Seq<RegisterCluster>> {
    match ma(p).registers { None => None, Some(v) => Some(v@) }
}
pub open spec fn Cluster_kids(c: Cluster) -> Option<Seq<RegisterCluster>> { Some(ma(c).children@) }
pub open spec fn Peripheral_kids_frame(a: Peripheral, b: Peripheral) -> bool { per_only_registers(ma(a), ma(b)) && ma_shape(a, b) }
pub open spec fn Cluster_kids_frame(a: Cluster, b: Cluster) -> bool { cl_only_children(ma(a), ma(b)) && ma_shape(a, b) }

//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | RegisterBlockExt for $T | children_mut
//@self $T
//@spec
    ensures
        match $T_kids(*old(self_)) {
            None => r is None && *final(self_) == *old(self_),
            Some(k) => r is Some && r.unwrap()@ == k && $T_kids_frame(*final(self_), *old(self_))
                && $T_kids(*final(self_)) == Some(final(r.unwrap())@),
        },
//@end
//@fn src/patch/peripheral.rs | RegisterBlockExt for $T | children
//@self $T
//@spec
    ensures match $T_kids(*self_) { None => r is None, Some(k) => r is Some && r.unwrap()@ == k },
//@end
//@endeach
}
