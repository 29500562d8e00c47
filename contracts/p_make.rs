// The builders a patch dictionary stands for.
//@wrap into or_else
use svd_parser::expand::{BlockPath, RegisterPath};
verus! {
#[verifier::external_type_specification] pub struct ExBlockPath(BlockPath);
#[verifier::external_type_specification] pub struct ExRegisterPath(RegisterPath);
//@type src/patch/mod.rs | VAL_LVL

#[verifier::inline] pub open spec fn sv(v: Vec<String>) -> Seq<String> { v@ }
// ---- what the dictionary says under a key ----
pub open spec fn h_str(h: Hash, k: Seq<char>) -> Option<Seq<char>> { match yget(h, k) { Some(y) => ystr(y), None => None } }
pub open spec fn h_int(h: Hash, k: Seq<char>, max: int) -> Option<int> { match yget(h, k) { Some(y) => yint_in(y, max), None => None } }
pub open spec fn h_u32(h: Hash, k: Seq<char>) -> Option<u32> { match h_int(h, k, u32::MAX as int) { Some(v) => Some(v as u32), None => None } }
pub open spec fn h_u64(h: Hash, k: Seq<char>) -> Option<u64> { match h_int(h, k, u64::MAX as int) { Some(v) => Some(v as u64), None => None } }
pub open spec fn h_bool(h: Hash, k: Seq<char>) -> Option<bool> { match yget(h, k) { Some(y) => ybool(y), None => None } }
pub open spec fn h_hash(h: Hash, k: Seq<char>) -> Option<Hash> { match yget(h, k) { Some(Yaml::Hash(x)) => Some(x), _ => None } }
// present and of the wrong kind
pub open spec fn bad_str(h: Hash, k: Seq<char>) -> bool { yget(h, k) is Some && h_str(h, k) is None }
pub open spec fn bad_u32(h: Hash, k: Seq<char>) -> bool { yget(h, k) is Some && h_u32(h, k) is None }
pub open spec fn bad_u64(h: Hash, k: Seq<char>) -> bool { yget(h, k) is Some && h_u64(h, k) is None }
pub open spec fn bad_bool(h: Hash, k: Seq<char>) -> bool { yget(h, k) is Some && h_bool(h, k) is None }
pub open spec fn bad_hash(h: Hash, k: Seq<char>) -> bool { yget(h, k) is Some && h_hash(h, k) is None }
pub open spec fn tx(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub uninterp spec fn access_of(s: Seq<char>) -> Option<Access>;
pub uninterp spec fn mwv_of(s: Seq<char>) -> Option<ModifiedWriteValues>;
pub uninterp spec fn ra_of(s: Seq<char>) -> Option<ReadAction>;
pub uninterp spec fn endian_of(s: Seq<char>) -> Option<Endian>;
pub uninterp spec fn abu_of(s: Seq<char>) -> Option<AddressBlockUsage>;
pub uninterp spec fn brange_of(s: Seq<char>) -> Option<BitRange>;
pub open spec fn via<A>(t: Option<Seq<char>>, f: spec_fn(Seq<char>) -> Option<A>) -> Option<A> { match t { Some(s) => f(s), None => None } }
pub assume_specification [Access::parse_str](s: &str) -> (r: Option<Access>) ensures r == access_of(s@);
pub assume_specification [ModifiedWriteValues::parse_str](s: &str) -> (r: Option<ModifiedWriteValues>) ensures r == mwv_of(s@);
pub assume_specification [ReadAction::parse_str](s: &str) -> (r: Option<ReadAction>) ensures r == ra_of(s@);
pub assume_specification [Endian::parse_str](s: &str) -> (r: Option<Endian>) ensures r == endian_of(s@);
pub assume_specification [AddressBlockUsage::parse_str](s: &str) -> (r: Option<AddressBlockUsage>) ensures r == abu_of(s@);
pub assume_specification [BitRange::from_bit_range](s: &str) -> (r: Option<BitRange>) ensures r == brange_of(s@);
pub assume_specification [BitRange::from_msb_lsb](msb: u32, lsb: u32) -> (r: BitRange) ensures r == br_ml(msb, lsb);
pub uninterp spec fn br_ml(msb: u32, lsb: u32) -> BitRange;
// the placeholders of a text filled in
pub uninterp spec fn interp<T>(p: T, s: Seq<char>) -> Seq<char>;
pub open spec fn interp_o<T>(p: Option<&T>, s: Option<Seq<char>>) -> Option<Seq<char>> {
    match s { None => None, Some(x) => Some(match p { None => x, Some(t) => interp(*t, x) }) }
}
#[verifier::external_body]
pub fn opt_interpolate<T>(path: &Option<&T>, s: Option<&str>) -> (r: Option<String>)
    ensures tx(r) == interp_o(*path, match s { Some(x) => Some(x@), None => None })
{ unimplemented!() }
pub trait IntoX { fn into_v(&self) -> String; }
impl IntoX for str { #[verifier::external_body] fn into_v(&self) -> (r: String) ensures r@ == self@ { self.into() } }

// ---- register properties ----
pub open spec fn props_of(h: Hash, p: RegisterProperties) -> bool {
    p.size == h_u32(h, "size"@) && p.access == via(h_str(h, "access"@), |s: Seq<char>| access_of(s)) && p.protection is None
    && p.reset_value == h_u64(h, "resetValue"@) && p.reset_mask == h_u64(h, "resetMask"@)
}
pub open spec fn props_bad(h: Hash) -> bool { bad_u32(h, "size"@) || bad_str(h, "access"@) || bad_u64(h, "resetValue"@) || bad_u64(h, "resetMask"@) }
//@fn src/patch/mod.rs | get_register_properties
//@spec
    ensures r is Ok == !props_bad(*h), r is Ok ==> props_of(*h, r.unwrap()),
//@end

// ---- fields ----
pub open spec fn wc_bad(h: Hash) -> bool {
    match wc_value(h) { None => false, Some(y) => ystr(y) != Some("none"@) && ystr(y) != Some("enum"@) && yrange(y) is None }
}
pub open spec fn wc_of(h: Hash) -> Option<WriteConstraint> {
    match wc_value(h) { None => None, Some(y) => if ystr(y) == Some("none"@) { None } else if ystr(y) == Some("enum"@) { Some(WriteConstraint::UseEnumeratedValues(true)) } else { yrange(y) } }
}
// msb and lsb, or bitRange, or whichever of bitOffset and bitWidth are given
pub open spec fn bits_of(h: Hash, m: FieldB) -> bool {
    let (ms, ls) = (h_u32(h, "msb"@), h_u32(h, "lsb"@));
    let br = via(h_str(h, "bitRange"@), |s: Seq<char>| brange_of(s));
    let (o, w) = (h_u32(h, "bitOffset"@), h_u32(h, "bitWidth"@));
    if ms is Some && ls is Some { m.bit_range == Some(br_ml(ms.unwrap(), ls.unwrap())) && m.bit_offset is None && m.bit_width is None }
    else if br is Some { m.bit_range == br && m.bit_offset is None && m.bit_width is None }
    else if o is Some && w is Some { m.bit_range is Some && m.bit_range.unwrap().offset == o.unwrap() && m.bit_range.unwrap().width == w.unwrap() && m.bit_range.unwrap().range_type is OffsetWidth && m.bit_offset is None && m.bit_width is None }
    else { m.bit_range is None && m.bit_offset == o && m.bit_width == w }
}
pub open spec fn fld_made(h: Hash, path: Option<&RegisterPath>, m: FieldB) -> bool {
    &&& tx(m.description) == interp_o(path, h_str(h, "description"@))
    &&& tx(m.derived_from) == interp_o(path, h_str(h, "derivedFrom"@))
    &&& m.access == via(h_str(h, "access"@), |s: Seq<char>| access_of(s))
    &&& m.modified_write_values == via(h_str(h, "modifiedWriteValues"@), |s: Seq<char>| mwv_of(s))
    &&& m.read_action == via(h_str(h, "readAction"@), |s: Seq<char>| ra_of(s))
    &&& m.write_constraint == wc_of(h)
    &&& tx(m.name) == h_str(h, "name"@)
    &&& m.enumerated_values is None
    &&& bits_of(h, m)
}
pub open spec fn fld_bad(h: Hash) -> bool {
    bad_str(h, "description"@) || bad_str(h, "derivedFrom"@) || bad_str(h, "access"@) || bad_str(h, "modifiedWriteValues"@) || bad_str(h, "readAction"@) || bad_str(h, "name"@) || wc_bad(h)
    || bad_u32(h, "msb"@) || bad_u32(h, "lsb"@)
}
//@fn src/patch/mod.rs | make_field
//@spec
    ensures fld_bad(*fadd) ==> r is Err, r is Ok ==> fld_made(*fadd, rpath, fld_b(r.unwrap())),
//@end

// ---- array dimensions ----
pub uninterp spec fn indexes_of(s: Seq<char>) -> Option<Vec<String>>;
pub assume_specification [DimElement::parse_indexes](s: &str) -> (r: Option<Vec<String>>) ensures r == indexes_of(s@);
pub open spec fn idx_of(h: Hash, x: Option<Vec<String>>) -> bool {
    match yget(h, "dimIndex"@) { None => x is None,
        Some(Yaml::String(t)) => x is Some && x == indexes_of(t@),
        Some(Yaml::Array(a)) => x is Some && x.unwrap()@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> #[trigger] ystr(a@[i]) == Some(x.unwrap()@[i]@),
        _ => false }
}
pub open spec fn dim_made(h: Hash, m: DimB) -> bool {
    m.dim == h_u32(h, "dim"@) && m.dim_increment == h_u32(h, "dimIncrement"@) && tx(m.dim_name) == h_str(h, "dimName"@) && idx_of(h, m.dim_index)
    && m.dim_array_index is Some == h_hash(h, "dimArrayIndex"@) is Some
}
pub open spec fn no_dim(h: Hash) -> bool {
    yget(h, "dim"@) is None && yget(h, "dimIncrement"@) is None && yget(h, "dimName"@) is None && yget(h, "dimIndex"@) is None && yget(h, "dimArrayIndex"@) is None
}
pub struct DimIndexParse;
impl From<DimIndexParse> for VErr { #[verifier::external_body] fn from(e: DimIndexParse) -> VErr { VErr } }
#[verifier::external_body]
pub fn make_dim_array_index(h: &Hash) -> (r: Result<DimArrayIndex>) { unimplemented!() }
// TRUSTED (svd-rs): builders are compared by what they were given
#[verifier::external_body]
pub fn dim_fresh(d: &DimElementBuilder) -> (r: bool) ensures r == dim_b_none(dim_b(*d)) { *d == DimElement::builder() }
pub assume_specification<T> [Option::<Option<T>>::flatten](o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None });
pub assume_specification<T, E> [Option::<core::result::Result<T, E>>::transpose] (o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures match o { None => r == Ok::<Option<T>, E>(None), Some(Ok(x)) => r == Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => r == Err::<Option<T>, E>(e) };
//@fn src/patch/mod.rs | make_dim_element
//@sub d == DimElement::builder() =>> dim_fresh(&d)
//@sub return Err(DimIndexParse.into()) =>> return Err(verr())
//@spec
    ensures match r { Ok(None) => no_dim(*h), Ok(Some(d)) => !no_dim(*h) && dim_made(*h, dim_b(d)), Err(_) => !no_dim(*h) }
//@attr #[verifier::loop_isolation(false)]
//@loop 1 it
    invariant it.seq().len() == a@.len(), forall|j: int| 0 <= j < a@.len() ==> *(#[trigger] it.seq()[j]) == a@[j],
        sv(v).len() == it.index(), forall|j: int| 0 <= j < it.index() ==> #[trigger] ystr(a@[j]) == Some(sv(v)[j]@),
//@loop-start 1
    proof { assert(*it.seq()[it.index()] == a@[it.index()]); }
//@end
// TRUSTED (svd-rs derives Clone): a clone is the same value
#[verifier::external_body]
pub fn clone_of<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
pub open spec fn dim_set<T>(a: MaybeArray<T>, d: Option<DimElementBuilder>, b: MaybeArray<T>) -> bool {
    match d { None => b == a, Some(d) => match b { MaybeArray::Single(_) => false, MaybeArray::Array(t, f) => t == ma(a) && match a {
        MaybeArray::Array(_, e) => dim_mod(e, dim_b(d), f), MaybeArray::Single(_) => dim_built(dim_b(d), f) } } }
}
//@fn src/patch/mod.rs | modify_dim_element
//@sub MaybeArray::Array(info.clone(), array_info) =>> MaybeArray::Array(clone_of(info), array_info)
//@spec
    ensures r is Ok ==> dim_set(*old(tag), *dim, *final(tag)),
//@end
pub open spec fn made_dim<T>(h: Hash, b: MaybeArray<T>) -> bool {
    match b { MaybeArray::Single(_) => no_dim(h), MaybeArray::Array(_, d) => !no_dim(h) && exists|m: DimB| #[trigger] dim_made(h, m) && dim_built(m, d) }
}

// ---- lists of fields, registers and interrupts ----
pub open spec fn fld_full(n: Seq<char>, h: Hash, path: Option<&RegisterPath>, f: Field) -> bool {
    made_dim(h, f) && ma(f).name@ == n && exists|m: FieldB| #[trigger] fld_made(h, path, m) && fld_built(FieldB { name: Some(ma(f).name), ..m }, ma(f))
}
pub open spec fn fld_entry(e: (Yaml, Yaml), f: Field) -> bool { e.1 is Hash && ystr(e.0) is Some && fld_full(kstr(e.0), hv(e.1), None, f) }
pub open spec fn flds_made(h: Hash, v: Seq<Field>) -> bool { v.len() == hents(h).len() && forall|i: int| 0 <= i < v.len() ==> fld_entry(hents(h)[i], #[trigger] v[i]) }
pub open spec fn reg_made(h: Hash, path: Option<&BlockPath>, m: RegB) -> bool {
    &&& tx(m.display_name) == h_str(h, "displayName"@)
    &&& tx(m.description) == interp_o(path, h_str(h, "description"@))
    &&& tx(m.derived_from) == interp_o(path, h_str(h, "derivedFrom"@))
    &&& tx(m.alternate_group) == h_str(h, "alternateGroup"@)
    &&& tx(m.alternate_register) == h_str(h, "alternateRegister"@)
    &&& props_of(h, m.properties)
    &&& m.write_constraint == wc_of(h)
    &&& tx(m.name) == h_str(h, "name"@)
    &&& m.address_offset == h_u32(h, "addressOffset"@)
    &&& m.datatype is None && m.modified_write_values is None && m.read_action is None
    &&& match h_hash(h, "fields"@) { None => m.fields is None, Some(x) => m.fields is Some && flds_made(x, m.fields.unwrap()@) }
}
pub open spec fn reg_bad(h: Hash) -> bool {
    bad_str(h, "displayName"@) || bad_str(h, "description"@) || bad_str(h, "derivedFrom"@) || bad_str(h, "alternateGroup"@) || bad_str(h, "alternateRegister"@) || props_bad(h) || wc_bad(h)
    || bad_str(h, "name"@) || bad_u32(h, "addressOffset"@) || bad_hash(h, "fields"@)
}
#[verifier::inline] pub open spec fn fv(v: Vec<Field>) -> Seq<Field> { v@ }
#[verifier::inline] pub open spec fn rv(v: Vec<RegisterCluster>) -> Seq<RegisterCluster> { v@ }
#[verifier::inline] pub open spec fn iv(v: Vec<Interrupt>) -> Seq<Interrupt> { v@ }
//@fn src/patch/mod.rs | make_register
//@attr #[verifier::loop_isolation(false)]
//@spec
    ensures reg_bad(*radd) ==> r is Err, r is Ok ==> reg_made(*radd, path, reg_b(r.unwrap())),
//@loop 1 it hoistv
    invariant it.seq() == g1_, eqe(g1_, hents(*h)), fv(fields).len() == it.index(), forall|i: int| 0 <= i < it.index() ==> fld_entry(hents(*h)[i], #[trigger] fv(fields)[i]),
//@loop-start 1
    proof { assert(*g1_[it.index()].0 == hents(*h)[it.index()].0); }
//@end
pub open spec fn reg_full(n: Seq<char>, h: Hash, path: Option<&BlockPath>, f: Register) -> bool {
    made_dim(h, f) && ma(f).name@ == n && exists|m: RegB| #[trigger] reg_made(h, path, m) && reg_built(RegB { name: Some(ma(f).name), ..m }, ma(f))
}
pub open spec fn reg_entry(e: (Yaml, Yaml), f: RegisterCluster) -> bool { e.1 is Hash && ystr(e.0) is Some && match f { RegisterCluster::Register(x) => reg_full(kstr(e.0), hv(e.1), None, x), _ => false } }
pub open spec fn regs_made(h: Hash, v: Seq<RegisterCluster>) -> bool { v.len() == hents(h).len() && forall|i: int| 0 <= i < v.len() ==> reg_entry(hents(h)[i], #[trigger] v[i]) }
pub open spec fn cl_made(h: Hash, path: Option<&BlockPath>, m: ClB) -> bool {
    &&& tx(m.description) == interp_o(path, h_str(h, "description"@))
    &&& tx(m.derived_from) == interp_o(path, h_str(h, "derivedFrom"@))
    &&& props_of(h, m.default_register_properties)
    &&& tx(m.name) == h_str(h, "name"@)
    &&& m.address_offset == h_u32(h, "addressOffset"@)
    &&& m.alternate_cluster is None && m.header_struct_name is None
    &&& match h_hash(h, "registers"@) { None => m.children is None, Some(x) => m.children is Some && regs_made(x, m.children.unwrap()@) }
}
pub open spec fn cl_bad(h: Hash) -> bool {
    bad_str(h, "description"@) || bad_str(h, "derivedFrom"@) || props_bad(h) || bad_str(h, "name"@) || bad_u32(h, "addressOffset"@) || bad_hash(h, "registers"@)
}
//@fn src/patch/mod.rs | make_cluster
//@attr #[verifier::loop_isolation(false)]
//@spec
    ensures cl_bad(*cadd) ==> r is Err, r is Ok ==> cl_made(*cadd, path, cl_b(r.unwrap())),
//@loop 1 it hoistv
    invariant it.seq() == g1_, eqe(g1_, hents(*h)), rv(ch).len() == it.index(), forall|i: int| 0 <= i < it.index() ==> reg_entry(hents(*h)[i], #[trigger] rv(ch)[i]),
//@loop-start 1
    proof { assert(*g1_[it.index()].0 == hents(*h)[it.index()].0); }
//@end
pub open spec fn cl_full(n: Seq<char>, h: Hash, path: Option<&BlockPath>, f: Cluster) -> bool {
    made_dim(h, f) && ma(f).name@ == n && exists|m: ClB| #[trigger] cl_made(h, path, m) && cl_built(ClB { name: Some(ma(f).name), ..m }, ma(f))
}
pub open spec fn int_made(h: Hash, m: IntB) -> bool { tx(m.description) == h_str(h, "description"@) && tx(m.name) == h_str(h, "name"@) && m.value == h_u32(h, "value"@) }
//@fn src/patch/mod.rs | make_interrupt
//@spec
    ensures r is Err == (bad_str(*iadd, "description"@) || bad_str(*iadd, "name"@) || bad_u32(*iadd, "value"@)), r is Ok ==> int_made(*iadd, int_b(r.unwrap())),
//@end
pub open spec fn int_full(n: Seq<char>, h: Hash, f: Interrupt) -> bool { f.name@ == n && exists|m: IntB| #[trigger] int_made(h, m) && int_built(IntB { name: Some(f.name), ..m }, f) }
pub open spec fn int_entry(e: (Yaml, Yaml), f: Interrupt) -> bool { e.1 is Hash && ystr(e.0) is Some && int_full(kstr(e.0), hv(e.1), f) }
pub open spec fn ints_made(h: Hash, v: Seq<Interrupt>) -> bool { v.len() == hents(h).len() && forall|i: int| 0 <= i < v.len() ==> int_entry(hents(h)[i], #[trigger] v[i]) }
pub open spec fn ab_made(h: Hash, m: AbB) -> bool {
    m.offset == h_u32(h, "offset"@) && m.size == h_u32(h, "size"@) && m.usage == via(h_str(h, "usage"@), |s: Seq<char>| abu_of(s)) && m.protection is None
}
//@fn src/patch/mod.rs | make_address_block
//@spec
    ensures r is Err == (bad_u32(*h, "offset"@) || bad_u32(*h, "size"@) || bad_str(*h, "usage"@)), r is Ok ==> ab_made(*h, ab_b(r.unwrap())),
//@end
pub open spec fn ab_full(h: Hash, x: AddressBlock) -> bool { exists|m: AbB| #[trigger] ab_made(h, m) && ab_built(m, x) }
pub open spec fn ab_entry(y: Yaml, x: AddressBlock) -> bool { y is Hash && ab_full(hv(y), x) }
pub open spec fn abs_made(s: Seq<Yaml>, v: Seq<AddressBlock>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> ab_entry(s[i], #[trigger] v[i]) }
//@fn src/patch/mod.rs | make_address_blocks
//@sig pub fn make_address_blocks(value: &Vec<Yaml>) -> (r: Result<Vec<AddressBlock>>)
//@attr #[verifier::loop_isolation(false)]
//@spec
    ensures r is Ok ==> abs_made(value@, r.unwrap()@),
//@loop 1 it hoistv
    invariant it.seq() == g1_, eqy(g1_, value@), abv(blocks).len() == it.index(), forall|i: int| 0 <= i < it.index() ==> ab_entry(value@[i], #[trigger] abv(blocks)[i]),
//@loop-start 1
    proof { assert(*g1_[it.index()] == value@[it.index()]); }
//@end
#[verifier::inline] pub open spec fn abv(v: Vec<AddressBlock>) -> Seq<AddressBlock> { v@ }
// address blocks are ignored when they are not of the expected kind
pub open spec fn blocks_of(h: Hash, v: Option<Vec<AddressBlock>>) -> bool {
    match h_hash(h, "addressBlock"@) { Some(x) => v is Some && v.unwrap()@.len() == 1 && ab_full(x, v.unwrap()@[0]), None => match yget(h, "addressBlocks"@) {
        Some(Yaml::Array(a)) => v is Some && abs_made(a@, v.unwrap()@), _ => v is None } }
}
pub open spec fn per_made(h: Hash, modify: bool, m: PerB) -> bool {
    &&& tx(m.display_name) == h_str(h, "displayName"@)
    &&& tx(m.version) == h_str(h, "version"@)
    &&& tx(m.description) == h_str(h, "description"@)
    &&& tx(m.derived_from) == h_str(h, "derivedFrom"@)
    &&& tx(m.group_name) == h_str(h, "groupName"@)
    &&& tx(m.name) == h_str(h, "name"@)
    &&& m.base_address == h_u64(h, "baseAddress"@)
    &&& m.alternate_peripheral is None && m.prepend_to_name is None && m.append_to_name is None && m.header_struct_name is None
    &&& match h_hash(h, "interrupts"@) { Some(x) if !modify => m.interrupt is Some && ints_made(x, m.interrupt.unwrap()@), _ => m.interrupt is None }
    &&& if h_str(h, "derivedFrom"@) is Some { rp_none(m.default_register_properties) && m.address_block is None && m.registers is None } else {
        props_of(h, m.default_register_properties) && (if modify { m.address_block is None } else { blocks_of(h, m.address_block) })
        && match h_hash(h, "registers"@) { None => m.registers is None, Some(x) => m.registers is Some && regs_made(x, m.registers.unwrap()@) } }
}
pub open spec fn per_bad(h: Hash) -> bool {
    bad_str(h, "displayName"@) || bad_str(h, "version"@) || bad_str(h, "description"@) || bad_str(h, "derivedFrom"@) || bad_str(h, "groupName"@) || bad_str(h, "name"@) || bad_u64(h, "baseAddress"@)
    || (h_str(h, "derivedFrom"@) is None && (props_bad(h) || bad_hash(h, "registers"@)))
}
pub fn vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } v }
//@fn src/patch/mod.rs | make_peripheral
//@attr #[verifier::loop_isolation(false)]
//@sub? h.iter() =>> h
//@sub vec![make_address_block(h)?.build(VAL_LVL)?] =>> vec1(make_address_block(h)?.build(VAL_LVL)?)
//@spec
    ensures per_bad(*padd) ==> r is Err, r is Ok ==> per_made(*padd, modify, per_b(r.unwrap())),
//@loop 1 it hoistv
    invariant it.seq() == g1_, eqe(g1_, hents(*h)), iv(interupts).len() == it.index(), forall|i: int| 0 <= i < it.index() ==> int_entry(hents(*h)[i], #[trigger] iv(interupts)[i]),
//@loop-start 1
    proof { assert(*g1_[it.index()].0 == hents(*h)[it.index()].0); }
//@loop 2 it2 hoistv
    invariant it2.seq() == g2_, eqe(g2_, hents(*h)), rv(regs).len() == it2.index(), forall|i: int| 0 <= i < it2.index() ==> reg_entry(hents(*h)[i], #[trigger] rv(regs)[i]),
//@loop-start 2
    proof { assert(*g2_[it2.index()].0 == hents(*h)[it2.index()].0); }
//@end
pub open spec fn per_full(n: Seq<char>, h: Hash, f: Peripheral) -> bool {
    made_dim(h, f) && ma(f).name@ == n && exists|m: PerB| #[trigger] per_made(h, false, m) && per_built(PerB { name: Some(ma(f).name), ..m }, ma(f))
}
pub open spec fn cpu_made(h: Hash, m: CpuB) -> bool {
    &&& m.fpu_double_precision == h_bool(h, "fpuDP"@) && m.dsp_present == h_bool(h, "dspPresent"@) && m.icache_present == h_bool(h, "icachePresent"@) && m.dcache_present == h_bool(h, "dcachePresent"@)
    &&& m.itcm_present == h_bool(h, "itcmPresent"@) && m.dtcm_present == h_bool(h, "dtcmPresent"@) && m.vtor_present == h_bool(h, "vtorPresent"@)
    &&& m.device_num_interrupts == h_u32(h, "deviceNumInterrupts"@) && m.sau_num_regions == h_u32(h, "sauNumRegions"@)
    &&& tx(m.name) == h_str(h, "name"@) && tx(m.revision) == h_str(h, "revision"@) && m.endian == via(h_str(h, "endian"@), |s: Seq<char>| endian_of(s))
    &&& m.mpu_present == h_bool(h, "mpuPresent"@) && m.fpu_present == h_bool(h, "fpuPresent"@) && m.nvic_priority_bits == h_u32(h, "nvicPrioBits"@) && m.has_vendor_systick == h_bool(h, "vendorSystickConfig"@)
}
//@fn src/patch/mod.rs | make_cpu
//@spec
    ensures r is Ok ==> cpu_made(*cmod, cpu_b(r.unwrap())),
//@end
}
