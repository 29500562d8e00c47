//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_clone.rs p_fmt.rs p_dim.rs
//@import p_yaml.rs p_hash.rs p_block.rs p_spec.rs
//@wrap retain find to_string into registers clusters map collect extend filter filter_map
//@methods Peripheral: clstrs get_cluster_registers present_clusters
//@methods Cluster: clstrs get_cluster_registers present_clusters
verus! {
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBPath(svd_parser::expand::BlockPath);
pub type BlockPath = svd_parser::expand::BlockPath;
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExVL(ValidateLevel);
//@type src/patch/mod.rs | EnumAutoDerive
//@type src/patch/mod.rs | Config
pub assume_specification [RegisterInfo::single](x: RegisterInfo) -> (r: Register) ensures r == Register::Single(x);
// TRUSTED (std)
#[verifier::external_body] pub fn take_v<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { core::mem::take(v) }
// ---- SPECIFICATION ----
// a selected register array is its elements, in their order
pub open spec fn picked_arr(c: RegisterCluster, spec: Seq<char>) -> bool { match c { RegisterCluster::Register(MaybeArray::Array(x, d)) => matches(x.name@, spec), _ => false } }
pub open spec fn elements(c: RegisterCluster, spec: Seq<char>, n: int) -> Seq<RegisterCluster> {
    match c { RegisterCluster::Register(MaybeArray::Array(x, d)) => Seq::new(n as nat, |i: int| RegisterCluster::Register(MaybeArray::Single(reg_at(x, d, i)))), _ => Seq::empty() }
}
pub open spec fn expanded1(c: RegisterCluster, spec: Seq<char>) -> Seq<RegisterCluster> {
    match c { RegisterCluster::Register(MaybeArray::Array(x, d)) => if matches(x.name@, spec) { elements(c, spec, d.dim as int) } else { seq![c] }, _ => seq![c] }
}
pub open spec fn expanded(s: Seq<RegisterCluster>, spec: Seq<char>, n: int) -> Seq<RegisterCluster> decreases n { if n <= 0 { Seq::empty() } else { expanded(s, spec, n - 1) + expanded1(s[n - 1], spec) } }
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | expand_array
//@name $T__expand_array
//@self $T
//@attr #[verifier::loop_isolation(false)]
//@sub std::mem::take =>> take_v
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)),
        match $T_kids(*old(self_)) { None => r is Err, Some(s) => $T_kids(*final(self_)) == Some(expanded(s, rspec@, s.len() as int)) && (r is Ok <==> exists|i: int| 0 <= i < s.len() && picked_arr(#[trigger] s[i], rspec@)) },
//@start
    let ghost s_ = kidz($T_kids(*self_));
//@loop 1 it
    invariant it.seq() == s_, regs@ =~= expanded(s_, rspec@, it.index() as int), found <==> exists|i: int| 0 <= i < it.index() && picked_arr(#[trigger] s_[i], rspec@),
//@loop-start 1
    let ghost m_ = regs@; let ghost x_ = rc;
//@loop 2 it2
    invariant regs@ =~= m_ + elements(x_, rspec@, it2.index() as int),
//@end
//@endeach

// ---- clusters ----
// TRUSTED (std, svd-rs)
pub uninterp spec fn has_sub(s: Seq<char>, p: Seq<char>) -> bool;
pub trait FindX { fn find_v(&self, p: &str) -> Option<usize>; }
impl FindX for str { #[verifier::external_body] fn find_v(&self, p: &str) -> (r: Option<usize>) ensures r is Some <==> has_sub(self@, p@) { self.find(p) } }
pub trait ToStringX { fn to_string_v(&self) -> String; }
impl ToStringX for str { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == self@ { self.to_string() } }
impl ToStringX for String { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == self@ { self.clone() } }
impl ToStringX for u32 { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == fdec(*self as nat) { self.to_string() } }
// ---- SPECIFICATION ----
pub open spec fn delim(o: Option<&str>) -> Seq<char> { match o { Some(s) => s@, None => "_"@ } }
// what comes before the names of the children of the n-th element; nothing if the cluster cannot be expanded so
pub open spec fn cl_prefix(n: int, x: ClusterInfo, d: DimElement, pre: Option<&str>, post: Option<&str>, zero: Option<bool>, noprefix: Option<bool>) -> Option<Seq<char>> {
    let name = x.name@; let b = has_sub(name, "[%s]"@); let p = has_sub(name, "%s"@); let none = noprefix == Some(true);
    if d.dim > 1 || zero == Some(true) {
        if none { None } else { match d.dim_index {
            Some(v) => if b || v@.len() != d.dim { None } else { Some(replaced(name, "%s"@, delim(pre) + v@[n]@) + delim(post)) },
            None => { let i = delim(pre) + fdec(n as nat); Some((if b { replaced(name, "[%s]"@, i) } else if p { replaced(name, "%s"@, i) } else { name + i }) + delim(post)) } } }
    } else if none { Some(""@) } else { Some((if b { replaced(name, "[%s]"@, ""@) } else if p { replaced(name, "%s"@, ""@) } else { name }) + delim(post)) }
}
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | expand_cluster_register_name_prefix
//@name cluster_prefix
//@sig pub fn cluster_prefix(n_dim: u32, ctag: ClusterInfo, bpath: &BlockPath, dim: DimElement, pre_index_delim: Option<&str>, post_index_delim: Option<&str>, zeroindex: Option<bool>, noprefix: Option<bool>) -> (r: Result<String>)
//@fmt
//@spec
    requires n_dim < dim.dim
    ensures match r { Ok(s) => cl_prefix(n_dim as int, ctag, dim, pre_index_delim, post_index_delim, zeroindex, noprefix) == Some(s@), Err(_) => cl_prefix(n_dim as int, ctag, dim, pre_index_delim, post_index_delim, zeroindex, noprefix) is None },
//@start
    broadcast use {lemma_after, lemma_assoc};
//@end

// TRUSTED (std, svd-rs)
pub open spec fn derefs<T>(v: Seq<&T>) -> Seq<T> { Seq::new(v.len(), |i: int| *v[i]) }
pub open spec fn told<A, R, F: Fn(A) -> R>(f: F, s: Seq<A>, p: Seq<R>) -> bool { p.len() == s.len() && forall|i: int| #![trigger p[i]] 0 <= i < s.len() ==> f.ensures((s[i],), p[i]) }
pub open spec fn told_r<'a, T, R, F: Fn(&&'a T) -> R>(f: F, s: Seq<&'a T>, p: Seq<R>) -> bool { p.len() == s.len() && forall|i: int| #![trigger p[i]] 0 <= i < s.len() ==> f.ensures((&s[i],), p[i]) }
pub open spec fn keep<T>(s: Seq<T>, b: Seq<bool>) -> Seq<T> decreases s.len() { if s.len() == 0 || b.len() != s.len() { Seq::empty() } else if b.last() { keep(s.drop_last(), b.drop_last()).push(s.last()) } else { keep(s.drop_last(), b.drop_last()) } }
pub open spec fn somes<U>(s: Seq<Option<U>>) -> Seq<U> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } } }
pub trait RefIterX<'a, T: 'a>: Sized {
    spec fn items(&self) -> Seq<&'a T>;
    fn filter_v<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Vec<&'a T>) requires forall|x: &&'a T| f.requires((x,)) ensures exists|b: Seq<bool>| #[trigger] told_r(f, self.items(), b) && r@ == keep(self.items(), b);
    fn filter_map_v<U, F: Fn(&'a T) -> Option<U>>(self, f: F) -> (r: Vec<U>) requires forall|x: &'a T| f.requires((x,)) ensures exists|b: Seq<Option<U>>| #[trigger] told(f, self.items(), b) && r@ == somes(b);
    fn map_v<U, F: Fn(&'a T) -> U>(self, f: F) -> (r: Vec<U>) requires forall|x: &'a T| f.requires((x,)) ensures told(f, self.items(), r@);
}
impl<'a, T: 'a> RefIterX<'a, T> for Vec<&'a T> {
    open spec fn items(&self) -> Seq<&'a T> { self@ }
    #[verifier::external_body] fn filter_v<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Vec<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn filter_map_v<U, F: Fn(&'a T) -> Option<U>>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body] fn map_v<U, F: Fn(&'a T) -> U>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
}
pub trait FromV<T>: Sized { spec fn sq(&self) -> Seq<T>; fn from_v(v: Vec<T>) -> (r: Self) ensures r.sq() == v@; }
impl<T> FromV<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ } fn from_v(v: Vec<T>) -> (r: Self) { v } }
pub trait CollectX<T>: Sized { spec fn all(&self) -> Seq<T>; fn collect_v<C: FromV<T>>(self) -> (r: C) ensures r.sq() == self.all(); fn extend_v(&mut self, o: Vec<T>) ensures final(self).all() == old(self).all() + o@; }
impl<T> CollectX<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ } fn collect_v<C: FromV<T>>(self) -> (r: C) { C::from_v(self) } #[verifier::external_body] fn extend_v(&mut self, o: Vec<T>) { self.extend(o) } }
pub trait IntoX { spec fn child(&self) -> RegisterCluster; fn into_v(self) -> (r: RegisterCluster) ensures r == self.child(); }
impl IntoX for Register { open spec fn child(&self) -> RegisterCluster { RegisterCluster::Register(*self) } #[verifier::external_body] fn into_v(self) -> (r: RegisterCluster) { self.into() } }
impl IntoX for Cluster { open spec fn child(&self) -> RegisterCluster { RegisterCluster::Cluster(*self) } #[verifier::external_body] fn into_v(self) -> (r: RegisterCluster) { self.into() } }
// the registers, the clusters among children
pub open spec fn regs_in(s: Seq<RegisterCluster>) -> Seq<Register> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { RegisterCluster::Register(r) => regs_in(s.drop_last()).push(r), _ => regs_in(s.drop_last()) } } }
pub open spec fn clus_in(s: Seq<RegisterCluster>) -> Seq<Cluster> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { RegisterCluster::Cluster(c) => clus_in(s.drop_last()).push(c), _ => clus_in(s.drop_last()) } } }
pub trait KidsX { fn registers_v<'a>(&'a self) -> Vec<&'a Register>; fn clusters_v<'a>(&'a self) -> Vec<&'a Cluster>; }
impl KidsX for ClusterInfo {
    #[verifier::external_body] fn registers_v<'a>(&'a self) -> (r: Vec<&'a Register>) ensures derefs(r@) == regs_in(self.children@) { self.registers().collect() }
    #[verifier::external_body] fn clusters_v<'a>(&'a self) -> (r: Vec<&'a Cluster>) ensures derefs(r@) == clus_in(self.children@) { self.clusters().collect() }
}
//@each T: Peripheral Cluster
#[verifier::external_body] pub fn $T__clstrs<'a>(self_: &'a $T) -> (r: Vec<&'a Cluster>) ensures derefs(r@) == clus_in(kidz($T_kids(*self_))) { self_.clusters().collect() }
#[verifier::external_body] pub fn $T__present_clusters(self_: &$T) -> String { unimplemented!() }
//@endeach
// ---- SPECIFICATION ----
pub open spec fn rc_regs(s: Seq<Register>) -> Seq<RegisterCluster> { Seq::new(s.len(), |i: int| RegisterCluster::Register(s[i])) }
pub open spec fn rc_clus(s: Seq<Cluster>) -> Seq<RegisterCluster> { Seq::new(s.len(), |i: int| RegisterCluster::Cluster(s[i])) }
// every child: the registers, then the clusters
pub open spec fn members(x: ClusterInfo) -> Seq<RegisterCluster> { rc_regs(regs_in(x.children@)) + rc_clus(clus_in(x.children@)) }
pub open spec fn arrays(s: Seq<Cluster>) -> Seq<(ClusterInfo, DimElement)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { MaybeArray::Array(x, d) => arrays(s.drop_last()).push((x, d)), _ => arrays(s.drop_last()) } } }
pub open spec fn picks(k: Seq<RegisterCluster>, spec: Seq<char>) -> Seq<(ClusterInfo, DimElement)> { arrays(clus_in(k).filter(clu_named(spec))) }
pub open spec fn clu_named(spec: Seq<char>) -> spec_fn(Cluster) -> bool { |c: Cluster| matches(ma(c).name@, spec) }
pub open spec fn datum(t: (&ClusterInfo, DimElement, Vec<RegisterCluster>), p: (ClusterInfo, DimElement)) -> bool { *t.0 == p.0 && t.1 == p.1 && t.2@ == members(p.0) }
pub open spec fn data(t: Seq<(&ClusterInfo, DimElement, Vec<RegisterCluster>)>, p: Seq<(ClusterInfo, DimElement)>) -> bool { t.len() == p.len() && forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> datum(t[i], p[i]) }
// ---- PROOF ----
pub open spec fn made(c: Cluster, o: Option<(&ClusterInfo, DimElement, Vec<RegisterCluster>)>) -> bool { match c { MaybeArray::Array(x, d) => o is Some && datum(o.unwrap(), (x, d)), _ => o is None } }
pub proof fn lemma_keep(w: Seq<&Cluster>, b: Seq<bool>, q: spec_fn(Cluster) -> bool)
    requires w.len() == b.len(), forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> b[i] == q(*w[i])
    ensures derefs(keep(w, b)) =~= derefs(w).filter(q) decreases w.len()
{
    reveal(Seq::filter);
    if w.len() > 0 {
        let l = w.len() - 1; assert(b[l] == q(*w[l]));
        assert forall|i: int| #![trigger b.drop_last()[i]] 0 <= i < b.len() - 1 implies b.drop_last()[i] == q(*w.drop_last()[i]) by { assert(b.drop_last()[i] == b[i]); }
        lemma_keep(w.drop_last(), b.drop_last(), q);
        assert(derefs(w).drop_last() =~= derefs(w.drop_last()));
    }
}
pub proof fn lemma_made(w: Seq<&Cluster>, o: Seq<Option<(&ClusterInfo, DimElement, Vec<RegisterCluster>)>>)
    requires w.len() == o.len(), forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> made(*w[i], o[i])
    ensures data(somes(o), arrays(derefs(w))) decreases w.len()
{
    if w.len() > 0 {
        let l = w.len() - 1; assert(made(*w[l], o[l]));
        assert forall|i: int| #![trigger o.drop_last()[i]] 0 <= i < o.len() - 1 implies made(*w.drop_last()[i], o.drop_last()[i]) by { assert(o.drop_last()[i] == o[i]); }
        lemma_made(w.drop_last(), o.drop_last());
        assert(derefs(w).drop_last() =~= derefs(w.drop_last()));
    }
}
pub broadcast proof fn lemma_kept<'a, F: Fn(&&'a Cluster) -> bool>(f: F, w: Seq<&'a Cluster>, b: Seq<bool>)
    requires #[trigger] told_r(f, w, b)
    ensures forall|d: Seq<char>| #![trigger clu_named(d)] (forall|x: &&'a Cluster, y: bool| f.ensures((x,), y) ==> y == clu_named(d)(**x)) ==> derefs(keep(w, b)) == derefs(w).filter(clu_named(d))
{ assert forall|d: Seq<char>| #![trigger clu_named(d)] (forall|x: &&'a Cluster, y: bool| f.ensures((x,), y) ==> y == clu_named(d)(**x)) implies derefs(keep(w, b)) == derefs(w).filter(clu_named(d)) by { lemma_keep(w, b, clu_named(d)); } }
pub broadcast proof fn lemma_mades<'a, F: Fn(&'a Cluster) -> Option<(&'a ClusterInfo, DimElement, Vec<RegisterCluster>)>>(f: F, w: Seq<&'a Cluster>, o: Seq<Option<(&'a ClusterInfo, DimElement, Vec<RegisterCluster>)>>)
    requires #[trigger] told(f, w, o), forall|x: &'a Cluster, y: Option<(&'a ClusterInfo, DimElement, Vec<RegisterCluster>)>| f.ensures((x,), y) ==> made(*x, y)
    ensures data(somes(o), arrays(derefs(w)))
{ lemma_made(w, o); }
pub broadcast proof fn lemma_rc<'a, F: Fn(&'a Register) -> RegisterCluster>(f: F, w: Seq<&'a Register>, o: Seq<RegisterCluster>)
    requires #[trigger] told(f, w, o), forall|x: &'a Register, y: RegisterCluster| f.ensures((x,), y) ==> y == RegisterCluster::Register(*x)
    ensures o == rc_regs(derefs(w))
{ assert(o =~= rc_regs(derefs(w))); }
pub broadcast proof fn lemma_cc<'a, F: Fn(&'a Cluster) -> RegisterCluster>(f: F, w: Seq<&'a Cluster>, o: Seq<RegisterCluster>)
    requires #[trigger] told(f, w, o), forall|x: &'a Cluster, y: RegisterCluster| f.ensures((x,), y) ==> y == RegisterCluster::Cluster(*x)
    ensures o == rc_clus(derefs(w))
{ assert(o =~= rc_clus(derefs(w))); }
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | get_cluster_registers
//@name $T__get_cluster_registers
//@sig pub fn $T__get_cluster_registers<'a>(self_: &'a $T, cspec: &str) -> (r: Vec<(&'a ClusterInfo, DimElement, Vec<RegisterCluster>)>)
//@self $T
//@spec
    ensures data(r@, picks(kidz($T_kids(*self_)), sel(cspec@))),
//@start
    broadcast use {lemma_kept, lemma_mades, lemma_rc, lemma_cc};
    let ghost c0_ = cspec@;
    proof { assert(clu_named(sel(c0_)) == clu_named(sel(c0_))); }
//@closure 1 |$1: &&'a Cluster| -> (b: bool)
    ensures b == clu_named(sel(c0_))(**$1)
//@closure 2 |$1: &'a Cluster| -> (o: Option<(&'a ClusterInfo, DimElement, Vec<RegisterCluster>)>)
    ensures made(*$1, o)
//@closure 3 |$1: &Register| -> (o: RegisterCluster)
    ensures o == RegisterCluster::Register(*$1)
//@closure 4 |$1: &Cluster| -> (o: RegisterCluster)
    ensures o == RegisterCluster::Cluster(*$1)
//@end
//@endeach
// ---- SPECIFICATION ----
pub type Args<'a> = (Option<&'a str>, Option<&'a str>, Option<bool>, Option<bool>);
pub open spec fn prefix_of(i: int, x: ClusterInfo, d: DimElement, a: Args) -> Option<Seq<char>> { cl_prefix(i, x, d, a.0, a.1, a.2, a.3) }
// what becomes of a child of a cluster: the same under a longer name, further on
pub struct Step { pub c: RegisterCluster, pub p: Seq<char>, pub by: int }
pub open spec fn moved(s: Step, y: RegisterCluster) -> bool {
    match (s.c, y) {
        (RegisterCluster::Register(a), RegisterCluster::Register(b)) => ma_shape(b, a) && $but(reg, ma(b), ma(a), name address_offset) && ma(b).name@ == s.p + ma(a).name@ && ma(b).address_offset == ma(a).address_offset + s.by,
        (RegisterCluster::Cluster(a), RegisterCluster::Cluster(b)) => ma_shape(b, a) && $but(cl, ma(b), ma(a), name address_offset) && ma(b).name@ == s.p + ma(a).name@ && ma(b).address_offset == ma(a).address_offset + s.by,
        _ => false } }
pub open spec fn offset(c: RegisterCluster) -> int { match c { RegisterCluster::Register(a) => ma(a).address_offset as int, RegisterCluster::Cluster(a) => ma(a).address_offset as int } }
// the i-th element of a cluster array, the first n, those of all selected ones: each of its children at cluster offset + i * increment
pub open spec fn turn(x: ClusterInfo, d: DimElement, i: int, a: Args) -> Seq<Step> { Seq::new(members(x).len(), |k: int| Step { c: members(x)[k], p: prefix_of(i, x, d, a).unwrap(), by: x.address_offset + i * d.dim_increment }) }
pub open spec fn turns(x: ClusterInfo, d: DimElement, n: int, a: Args) -> Seq<Step> decreases n { if n <= 0 { Seq::empty() } else { turns(x, d, n - 1, a) + turn(x, d, n - 1, a) } }
pub open spec fn plan(s: Seq<(ClusterInfo, DimElement)>, n: int, a: Args) -> Seq<Step> decreases n { if n <= 0 { Seq::empty() } else { plan(s, n - 1, a) + turns(s[n - 1].0, s[n - 1].1, s[n - 1].1.dim as int, a) } }
pub open spec fn follows(o: Seq<RegisterCluster>, p: Seq<Step>) -> bool { o.len() == p.len() && forall|j: int| #![trigger o[j]] #![trigger p[j]] 0 <= j < o.len() ==> moved(p[j], o[j]) }
// can be expanded
pub open spec fn good1(p: (ClusterInfo, DimElement), a: Args) -> bool { p.1.dim > 0 && members(p.0).len() > 0 && forall|i: int| #![trigger prefix_of(i, p.0, p.1, a)] 0 <= i < p.1.dim ==> prefix_of(i, p.0, p.1, a) is Some }
pub open spec fn good(s: Seq<(ClusterInfo, DimElement)>, a: Args) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> good1(s[j], a) }
// ASSUMPTION: all addresses fit into 32 bits
pub open spec fn fits1(p: (ClusterInfo, DimElement)) -> bool { forall|i: int, k: int| #![trigger members(p.0)[k], i * p.1.dim_increment] 0 <= i < p.1.dim && 0 <= k < members(p.0).len() ==> i * p.1.dim_increment + p.0.address_offset + offset(members(p.0)[k]) <= u32::MAX }
pub open spec fn fits(s: Seq<(ClusterInfo, DimElement)>) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> fits1(s[j]) }
pub open spec fn unpicked(spec: Seq<char>) -> spec_fn(RegisterCluster) -> bool { |rc: RegisterCluster| match rc { RegisterCluster::Cluster(MaybeArray::Array(x, d)) => !matches(x.name@, spec), _ => true } }
// ---- PROOF ----
pub open spec fn owned(t: Seq<(ClusterInfo, DimElement, Vec<RegisterCluster>)>, p: Seq<(ClusterInfo, DimElement)>, n: int) -> bool { t.len() == n && n <= p.len() && forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i].0 == p[i].0 && t[i].1 == p[i].1 && t[i].2@ == members(p[i].0) }
pub proof fn lemma_follows(o: Seq<RegisterCluster>, p: Seq<Step>, y: RegisterCluster, s: Step) requires follows(o, p), moved(s, y) ensures follows(o.push(y), p.push(s)) {}
//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | expand_cluster
//@name $T__expand_cluster
//@self $T
//@attr #[verifier::loop_isolation(false)]
//@fmt
//@sub <svd_rs::RegisterCluster as Clone>::clone(&reg) =>> reg.clone_v()
//@sub Self::expand_cluster_register_name_prefix =>> cluster_prefix
//@spec
    requires fits(picks(kidz($T_kids(*old(self_))), sel(cspec@))), !sel_opt(sel(cspec@))
    ensures ({ let q = sel(cspec@); let a = (pre_index_delim, post_index_delim, zeroindex, noprefix); let ps = picks(kidz($T_kids(*old(self_))), q);
        &&& r is Ok <==> good(ps, a) && (sel_opt(cspec@) || ps.len() > 0)
        &&& $T_kids_frame(*final(self_), *old(self_))
        &&& r is Ok ==> match $T_kids(*old(self_)) { None => *final(self_) == *old(self_),
            Some(k) => exists|o: Seq<RegisterCluster>| $T_kids(*final(self_)) == Some(k.filter(unpicked(q)) + o) && #[trigger] follows(o, plan(ps, ps.len() as int, a)) } }),
//@start
    let ghost k_ = kidz($T_kids(*self_)); let ghost q_ = sel(cspec@); let ghost ps_ = picks(k_, q_); let ghost a_ = (pre_index_delim, post_index_delim, zeroindex, noprefix);
    let ghost mut o_: Seq<RegisterCluster> = Seq::empty(); let ghost kept_ = k_.filter(unpicked(q_));
//@closure 1 |$1: &RegisterCluster| -> (b: bool)
    ensures b == unpicked(q_)(*$1)
//@loop 1 it
    invariant data(it.seq(), ps_), owned(clusters_to_expand_with_info@, ps_, it.index() as int),
//@loop-start 1
    assert(datum(it.seq()[it.index() as int], ps_[it.index() as int]));
//@loop 2 it2
    invariant it2.seq() == members(ps_[it.index() as int].0), regs@ =~= it2.seq().take(it2.index() as int),
//@loop-end 1
    proof { assert(members(ps_[it.index() as int].0).take(members(ps_[it.index() as int].0).len() as int) =~= members(ps_[it.index() as int].0)); }
//@before-loop 3
    proof { assert(regs@ =~= kept_ + o_); }
//@loop 3 it3
    invariant owned(it3.seq(), ps_, ps_.len() as int), regs@ == kept_ + o_, follows(o_, plan(ps_, it3.index() as int, a_)), forall|j: int| #![trigger ps_[j]] 0 <= j < it3.index() ==> good1(ps_[j], a_),
//@loop-start 3
    let ghost n_ = it3.index() as int; let ghost x_ = ps_[n_].0; let ghost d_ = ps_[n_].1; let ghost b_ = plan(ps_, n_, a_);
    proof { assert(it3.seq()[n_].0 == x_); assert(fits1(ps_[n_])); assert(b_ + turns(x_, d_, 0, a_) =~= b_); }
//@loop 4 it4
    invariant it4.seq().len() == d_.dim, forall|i: int| 0 <= i < d_.dim ==> it4.seq()[i] == i, regs@ == kept_ + o_, follows(o_, b_ + turns(x_, d_, it4.index() as int, a_)),
        found <==> (it4.index() > 0 && members(x_).len() > 0), forall|i: int| #![trigger prefix_of(i, x_, d_, a_)] 0 <= i < it4.index() ==> prefix_of(i, x_, d_, a_) is Some,
//@loop-start 4
    let ghost i_ = it4.index() as int; let ghost t_ = b_ + turns(x_, d_, i_, a_); let ghost u_ = turn(x_, d_, i_, a_);
    proof { assert(n_dim == i_); assert(t_ + u_.take(0) =~= t_); assert(prefix_of(i_, x_, d_, a_) == cl_prefix(i_, x_, d_, pre_index_delim, post_index_delim, zeroindex, noprefix)); }
//@loop 5 it5
    invariant it5.seq() == members(x_), regs@ == kept_ + o_, follows(o_, t_ + u_.take(it5.index() as int)), found <==> (i_ > 0 && members(x_).len() > 0 || it5.index() > 0),
//@loop-start 5
    let ghost j_ = it5.index() as int; let ghost c_ = reg;
    proof { assert(members(x_)[j_] == reg); assert(i_ * d_.dim_increment + x_.address_offset + offset(members(x_)[j_]) <= u32::MAX); assert(i_ * d_.dim_increment >= 0) by (nonlinear_arith) requires i_ >= 0, d_.dim_increment >= 0; broadcast use {lemma_after, lemma_assoc}; }
//@loop-end 5
    proof { assert(moved(u_[j_], reg)); lemma_follows(o_, t_ + u_.take(j_), reg, u_[j_]); assert((t_ + u_.take(j_)).push(u_[j_]) =~= t_ + u_.take(j_ + 1)); assert((kept_ + o_).push(reg) =~= kept_ + o_.push(reg)); o_ = o_.push(reg); }
//@loop-end 4
    proof { assert(u_.take(members(x_).len() as int) =~= u_); assert(t_ + u_ =~= b_ + turns(x_, d_, i_ + 1, a_)); }
//@loop-end 3
    proof { assert(good1(ps_[n_], a_)); assert(b_ + turns(x_, d_, d_.dim as int, a_) =~= plan(ps_, n_ + 1, a_)); }
//@end
//@endeach
}
fn main(){}
