// The elements of an array (svd-rs, assumed): their names, texts and places.
verus! {
// what stands for the i-th element in its name
pub open spec fn dim_idx(d: DimElement, i: int) -> Seq<char> { match d.dim_index { Some(v) => v@[i]@, None => fdec(i as nat) } }
pub uninterp spec fn enum_el_name(d: DimElement, n: Seq<char>, i: int) -> Seq<char>;
pub uninterp spec fn enum_el_desc(d: DimElement, n: Option<Seq<char>>, i: int) -> Option<Seq<char>>;
pub open spec fn indexed(n: Seq<char>, x: Seq<char>) -> Seq<char> { replaced(replaced(n, "[%s]"@, x), "%s"@, x) }
pub open spec fn el_name(d: DimElement, n: Seq<char>, i: int) -> Seq<char> { if d.dim_array_index is None { indexed(n, dim_idx(d, i)) } else { enum_el_name(d, n, i) } }
pub open spec fn otxt(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn el_desc(d: DimElement, n: Option<Seq<char>>, i: int) -> Option<Seq<char>> { if d.dim_array_index is None { match n { Some(t) => Some(indexed(t, dim_idx(d, i))), None => None } } else { enum_el_desc(d, n, i) } }
// (everything but name, texts and place is the same)
pub open spec fn reg_el(x: RegisterInfo, d: DimElement, i: int, y: RegisterInfo) -> bool {
    y.name@ == el_name(d, x.name@, i) && otxt(y.description) == el_desc(d, otxt(x.description), i) && y.address_offset == x.address_offset + i * d.dim_increment
    && y.alternate_group == x.alternate_group && y.alternate_register == x.alternate_register && y.properties == x.properties && y.datatype == x.datatype && y.modified_write_values == x.modified_write_values
    && y.write_constraint == x.write_constraint && y.read_action == x.read_action && y.fields == x.fields && y.derived_from == x.derived_from
}
pub open spec fn clu_el(x: ClusterInfo, d: DimElement, i: int, y: ClusterInfo) -> bool {
    y.name@ == el_name(d, x.name@, i) && otxt(y.description) == el_desc(d, otxt(x.description), i) && y.address_offset == x.address_offset + i * d.dim_increment
    && y.alternate_cluster == x.alternate_cluster && y.header_struct_name == x.header_struct_name && y.default_register_properties == x.default_register_properties && y.children == x.children && y.derived_from == x.derived_from
}
pub open spec fn fld_el(x: FieldInfo, d: DimElement, i: int, y: FieldInfo) -> bool {
    y.name@ == el_name(d, x.name@, i) && otxt(y.description) == el_desc(d, otxt(x.description), i) && y.bit_range.offset == x.bit_range.offset + i * d.dim_increment && y.bit_range.width == x.bit_range.width
    && y.derived_from == x.derived_from && y.access == x.access && y.modified_write_values == x.modified_write_values && y.write_constraint == x.write_constraint && y.read_action == x.read_action && y.enumerated_values == x.enumerated_values
}
pub open spec fn per_el(x: PeripheralInfo, d: DimElement, i: int, y: PeripheralInfo) -> bool {
    y.name@ == el_name(d, x.name@, i) && y.base_address == x.base_address + i * d.dim_increment && y.registers == x.registers && y.interrupt == x.interrupt && y.derived_from == x.derived_from
}
// the i-th element itself
pub uninterp spec fn reg_at(x: RegisterInfo, d: DimElement, i: int) -> RegisterInfo;
}
// TRUSTED (svd-rs)
pub mod svd {
    use super::*;
    pub mod register { use super::*; verus! { #[verifier::external_body] pub fn expand(x: &RegisterInfo, d: &DimElement) -> (r: Vec<RegisterInfo>) ensures r@.len() == d.dim, forall|i: int| #![trigger r@[i]] 0 <= i < d.dim ==> reg_el(*x, *d, i, r@[i]) && r@[i] == reg_at(*x, *d, i) { unimplemented!() } } }
    pub mod cluster { use super::*; verus! { #[verifier::external_body] pub fn expand(x: &ClusterInfo, d: &DimElement) -> (r: Vec<ClusterInfo>) ensures r@.len() == d.dim, forall|i: int| #![trigger r@[i]] 0 <= i < d.dim ==> clu_el(*x, *d, i, r@[i]) { unimplemented!() } } }
    pub mod field { use super::*; verus! { #[verifier::external_body] pub fn expand(x: &FieldInfo, d: &DimElement) -> (r: Vec<FieldInfo>) ensures r@.len() == d.dim, forall|i: int| #![trigger r@[i]] 0 <= i < d.dim ==> fld_el(*x, *d, i, r@[i]) { unimplemented!() } } }
    pub mod peripheral { use super::*; verus! { #[verifier::external_body] pub fn expand(x: &PeripheralInfo, d: &DimElement) -> (r: Vec<PeripheralInfo>) ensures r@.len() == d.dim, forall|i: int| #![trigger r@[i]] 0 <= i < d.dim ==> per_el(*x, *d, i, r@[i]) { unimplemented!() } } }
}
