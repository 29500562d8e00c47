//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_wc.rs
//@use p_text.rs
//@import p_make.rs p_block.rs p_iter.rs p_kids.rs p_find.rs p_spec.rs
//@use p_clone.rs p_path.rs
//@methods Register: present_fields
//@methods Peripheral: present_registers present_clusters
//@methods Cluster: present_registers present_clusters
verus! {
#[verifier::external_body] pub fn Register__present_fields(r: &Register) -> String { unimplemented!() }
// TRUSTED (std): the empty string is the one with no characters
#[verifier::external_body] pub proof fn axiom_empty_str() ensures forall|a: &str| (#[trigger] a@) == Seq::<char>::empty() ==> a == "" {}
// the access is removed when the given one is empty
pub open spec fn no_access(h: Hash) -> bool { h_str(h, "access"@) == Some(Seq::<char>::empty()) }
pub open spec fn bare(p: RegisterProperties, q: RegisterProperties) -> bool { q.access is None && q.size == p.size && q.protection == p.protection && q.reset_value == p.reset_value && q.reset_mask == p.reset_mask }
pub open spec fn reg_took(h: Hash, m: RegB, a: RegisterInfo, b: RegisterInfo) -> bool {
    exists|y: RegisterInfo| #[trigger] reg_mod(a, m, y) && if no_access(h) { $but(reg, b, y, properties) && bare(y.properties, b.properties) } else { b == y }
}
pub open spec fn reg_modified(h: Hash, m: RegB, d: Option<DimElementBuilder>) -> spec_fn(Register, Register) -> bool { |a: Register, b: Register| dim_shape(a, d, b) && reg_took(h, m, ma(a), ma(b)) }
pub open spec fn cl_modified(m: ClB, d: Option<DimElementBuilder>) -> spec_fn(Cluster, Cluster) -> bool { |a: Cluster, b: Cluster| dim_shape(a, d, b) && cl_mod(ma(a), m, ma(b)) }
pub open spec fn int_modified(h: Hash) -> spec_fn(Interrupt, Interrupt) -> bool { |a: Interrupt, b: Interrupt| exists|m: IntB| #[trigger] int_made(h, m) && int_mod(a, m, b) }

//@fn src/patch/peripheral.rs | modify_register
//@attr #[verifier::loop_isolation(false)]
//@spec
    ensures r is Ok ==> exists|m: RegB, d: Option<DimElementBuilder>| #[trigger] reg_made(*rmod, Some(bpath), m) && #[trigger] dim_of(*rmod, d)
        && forall|j: int| 0 <= j < rtags@.len() ==> reg_modified(*rmod, m, d)(*rtags@[j], *final(#[trigger] rtags@[j])),
//@before-loop 1
    let ghost m_ = reg_b(register_builder); let ghost d_ = dim;
    proof { axiom_empty_str(); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(reg_made(*rmod, Some(bpath), m_)); assert(dim_of(*rmod, d_)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> reg_modified(*rmod, m_, d_)(*g1_[j], *final(#[trigger] g1_[j])),
//@after "rtag.modify_from("
    let ghost y_ = ma(*rtag); let ghost mut took_ = false;
    proof { assert(reg_mod(ma(*g1_[it.index()]), m_, y_)); }
//@after "rtag.properties.access = None"
    proof { took_ = true; assert(bare(y_.properties, ma(*rtag).properties)); assert($but(reg, ma(*rtag), y_, properties)); }
//@loop-end 1
    proof { assert(took_ <==> no_access(*rmod)); assert(!took_ ==> ma(*rtag) == y_); assert(reg_mod(ma(*g1_[it.index()]), m_, y_)); assert(reg_took(*rmod, m_, ma(*g1_[it.index()]), ma(*rtag))); assert(reg_modified(*rmod, m_, d_)(*g1_[it.index()], *rtag)); }
//@end
//@fn src/patch/peripheral.rs | modify_cluster
//@attr #[verifier::loop_isolation(false)]
//@spec
    ensures r is Ok ==> exists|m: ClB, d: Option<DimElementBuilder>| #[trigger] cl_made(*cmod, Some(bpath), m) && #[trigger] dim_of(*cmod, d)
        && forall|j: int| 0 <= j < ctags@.len() ==> cl_modified(m, d)(*ctags@[j], *final(#[trigger] ctags@[j])),
//@before-loop 1
    let ghost m_ = cl_b(cluster_builder); let ghost d_ = dim;
    proof { assert(cl_made(*cmod, Some(bpath), m_)); assert(dim_of(*cmod, d_)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> cl_modified(m_, d_)(*g1_[j], *final(#[trigger] g1_[j])),
//@end
//@fn src/patch/peripheral.rs | InterruptExt for Peripheral | modify_interrupt
//@self Peripheral
//@attr #[verifier::loop_isolation(false)]
//@spec
    ensures per_only_interrupt(ma(*final(self_)), ma(*old(self_))), ma_shape(*final(self_), *old(self_)),
        r is Ok ==> upd_sel(ma(*old(self_)).interrupt@, ma(*final(self_)).interrupt@, named(ispec@), int_modified(*imod)),
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> int_modified(*imod)(*g1_[j], *final(#[trigger] g1_[j])),
//@end
//@fn src/patch/device.rs | DeviceExt for Device | modify_cpu
//@self Device
//@spec
    ensures r is Ok ==> dev_only_cpu(*final(self_), *old(self_)) && final(self_).cpu is Some && exists|m: CpuB| #[trigger] cpu_made(*cmod, m) && match old(self_).cpu {
        Some(c) => cpu_mod(c, m, final(self_).cpu.unwrap()), None => cpu_built(m, final(self_).cpu.unwrap()) },
//@before "if let Some(c) = self.cpu"
    let ghost m_ = cpu_b(cpu); proof { assert(cpu_made(*cmod, m_)); }
//@end
// a field takes the write constraint of the entry, then everything else it gives
pub open spec fn fld_wc(h: Hash, a: FieldInfo, x: FieldInfo) -> bool { if wc_value(h) is Some { $but(fld, x, a, write_constraint) && x.write_constraint == wc_of(h) } else { x == a } }
pub open spec fn fld_took(h: Hash, m: FieldB, a: FieldInfo, b: FieldInfo) -> bool {
    exists|x: FieldInfo, y: FieldInfo| #[trigger] fld_wc(h, a, x) && #[trigger] fld_mod(x, m, y) && if no_access(h) { $but(fld, b, y, access) && b.access is None } else { b == y }
}
pub open spec fn fld_modified(h: Hash, m: FieldB, d: Option<DimElementBuilder>) -> spec_fn(Field, Field) -> bool { |a: Field, b: Field| dim_shape(a, d, b) && fld_took(h, m, ma(a), ma(b)) }
//@fn src/patch/register.rs | RegisterExt for Register | modify_field
//@self Register
//@attr #[verifier::loop_isolation(false)]
//@sub? .collect::<Vec<_>>() =>>
//@spec
    ensures reg_fields_frame(*final(self_), *old(self_)),
        !any_sel(reg_fields(*old(self_)), named(sel(fspec@))) ==> reg_fields(*final(self_)) =~= reg_fields(*old(self_)) && (r is Ok ==> sel_opt(fspec@)),
        r is Ok ==> exists|m: FieldB, d: Option<DimElementBuilder>| #[trigger] fld_made(*fmod, Some(rpath), m) && #[trigger] dim_of(*fmod, d)
            && upd_sel(reg_fields(*old(self_)), reg_fields(*final(self_)), named(sel(fspec@)), fld_modified(*fmod, m, d)),
//@start
    broadcast use {lemma_none};
    let ghost s0_ = reg_fields(*self_); let ghost p_ = named::<Field>(sel(fspec@));
    proof { axiom_string_eq(); axiom_empty_str(); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@before-loop 1
    let ghost m_ = fld_b(field_builder); let ghost d_ = dim;
    proof { assert(fld_made(*fmod, Some(rpath), m_)); assert(dim_of(*fmod, d_)); }
//@loop 1 it hoist
    invariant it.seq() == g1_, forall|j: int| 0 <= j < it.index() ==> fld_modified(*fmod, m_, d_)(*g1_[j], *final(#[trigger] g1_[j])),
//@closure 1 || -> (o_: Option<&Yaml>)
    ensures match o_ { Some(y) => yget(*fmod, "writeConstraint"@) == Some(*y), None => yget(*fmod, "writeConstraint"@) is None }
//@after "ftag.write_constraint = wc"
    proof { assert(wc_value(*fmod) == Some(*value)); assert(wc == wc_of(*fmod)); }
//@before "ftag.modify_from("
    let ghost x_ = ma(*ftag); let ghost mut took_ = false;
    proof { assert(fld_wc(*fmod, ma(*g1_[it.index()]), x_)); }
//@after "ftag.modify_from("
    let ghost y_ = ma(*ftag);
    proof { assert(fld_mod(x_, m_, y_)); }
//@after "ftag.access = None"
    proof { took_ = true; assert($but(fld, ma(*ftag), y_, access)); }
//@loop-end 1
    proof { assert(took_ <==> no_access(*fmod)); assert(!took_ ==> ma(*ftag) == y_); assert(fld_took(*fmod, m_, ma(*g1_[it.index()]), ma(*ftag))); assert(fld_modified(*fmod, m_, d_)(*g1_[it.index()], *ftag)); }
//@end
// ---- registers and clusters of a block, by selector ----
pub open spec fn regs_modified(h: Hash, path: Option<&BlockPath>, s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, spec: Seq<char>) -> bool {
    exists|m: RegB, d: Option<DimElementBuilder>| #[trigger] reg_made(h, path, m) && #[trigger] dim_of(h, d) && upd_Register(s, t, named(spec), reg_modified(h, m, d))
}
pub open spec fn cls_modified(h: Hash, path: Option<&BlockPath>, s: Seq<RegisterCluster>, t: Seq<RegisterCluster>, spec: Seq<char>) -> bool {
    exists|m: ClB, d: Option<DimElementBuilder>| #[trigger] cl_made(h, path, m) && #[trigger] dim_of(h, d) && upd_Cluster(s, t, named(spec), cl_modified(m, d))
}
//@each T: Peripheral Cluster
#[verifier::external_body] pub fn $T__present_registers(p: &$T) -> String { unimplemented!() }
#[verifier::external_body] pub fn $T__present_clusters(p: &$T) -> String { unimplemented!() }
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | modify_register
//@self $T
//@sub? .collect::<Vec<_>>() =>>
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)),
        !any_Register(kidz($T_kids(*old(self_))), named(sel(rspec@))) ==> kidz($T_kids(*final(self_))) =~= kidz($T_kids(*old(self_))) && (r is Ok ==> sel_opt(rspec@)),
        r is Ok ==> regs_modified(*rmod, Some(bpath), kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), sel(rspec@)),
//@start
    broadcast use {lemma_none_Register};
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | modify_cluster
//@self $T
//@sub? .collect::<Vec<_>>() =>>
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)),
        !any_Cluster(kidz($T_kids(*old(self_))), named(sel(cspec@))) ==> kidz($T_kids(*final(self_))) =~= kidz($T_kids(*old(self_))) && (r is Ok ==> sel_opt(cspec@)),
        r is Ok ==> cls_modified(*cmod, Some(bpath), kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), sel(cspec@)),
//@start
    broadcast use {lemma_none_Cluster};
//@end
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | modify_child
//@self $T
//@sub? .collect::<Vec<_>>() =>>
//@spec
    ensures $T_kids_frame(*final(self_), *old(self_)),
        r is Ok && any_Register(kidz($T_kids(*old(self_))), named(sel(rcspec@))) ==> regs_modified(*rcmod, Some(bpath), kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), sel(rcspec@)),
        r is Ok && !any_Register(kidz($T_kids(*old(self_))), named(sel(rcspec@))) ==> cls_modified(*rcmod, Some(bpath), kidz($T_kids(*old(self_))), kidz($T_kids(*final(self_))), sel(rcspec@)),
        r is Ok && !any_Register(kidz($T_kids(*old(self_))), named(sel(rcspec@))) && !any_Cluster(kidz($T_kids(*old(self_))), named(sel(rcspec@))) ==> sel_opt(rcspec@),
//@start
    broadcast use {lemma_none_Register, lemma_none_Cluster};
//@end
//@endeach
}
fn main(){}
