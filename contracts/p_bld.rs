// Generated by tools/gen_bld.py from svd-rs' source.  TRUSTED: what svd-rs' builders and
// `modify_from` do.  A builder is the record of what it was given.
use svd_rs::interrupt::InterruptBuilder;
use svd_rs::addressblock::AddressBlockBuilder;
verus! {
#[verifier::external_type_specification] pub struct ExLvl(ValidateLevel);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSvdError(SvdError);
impl From<SvdError> for VErr { #[verifier::external_body] fn from(e: SvdError) -> VErr { VErr } }
// an empty text, or an empty list, counts as none
pub open spec fn etn(x: Option<String>) -> Option<String> { match x { Some(s) => if s@.len() == 0 { None } else { x }, None => None } }
pub open spec fn etnv<T>(x: Option<Vec<T>>) -> Option<Vec<T>> { match x { Some(s) => if s@.len() == 0 { None } else { x }, None => None } }
// RegisterProperties is its own builder
pub open spec fn rp_none(p: RegisterProperties) -> bool { p.size is None && p.access is None && p.protection is None && p.reset_value is None && p.reset_mask is None }
pub open spec fn or_old<T>(new: Option<T>, old: Option<T>) -> Option<T> { match new { Some(x) => new, None => old } }
pub open spec fn or_keep<T>(new: Option<T>, old: T) -> T { match new { Some(x) => x, None => old } }
pub open spec fn rp_mod(a: RegisterProperties, m: RegisterProperties, b: RegisterProperties) -> bool {
    b.size == or_old(m.size, a.size) && b.access == or_old(m.access, a.access) && b.protection == or_old(m.protection, a.protection)
    && b.reset_value == or_old(m.reset_value, a.reset_value) && b.reset_mask == or_old(m.reset_mask, a.reset_mask)
}
pub assume_specification [RegisterProperties::new]() -> (r: RegisterProperties) ensures rp_none(r);
pub assume_specification [<RegisterProperties as core::default::Default>::default]() -> (r: RegisterProperties) ensures rp_none(r);
pub assume_specification [BitRange::from_offset_width](offset: u32, width: u32) -> (r: BitRange) ensures r.offset == offset, r.width == width, r.range_type is OffsetWidth;
pub assume_specification [RegisterProperties::size](p: RegisterProperties, value: Option<u32>) -> (r: RegisterProperties)
    ensures r.size == value, r.access == p.access, r.protection == p.protection, r.reset_value == p.reset_value, r.reset_mask == p.reset_mask;
pub assume_specification [RegisterProperties::access](p: RegisterProperties, value: Option<Access>) -> (r: RegisterProperties)
    ensures r.access == value, r.size == p.size, r.protection == p.protection, r.reset_value == p.reset_value, r.reset_mask == p.reset_mask;
pub assume_specification [RegisterProperties::protection](p: RegisterProperties, value: Option<Protection>) -> (r: RegisterProperties)
    ensures r.protection == value, r.size == p.size, r.access == p.access, r.reset_value == p.reset_value, r.reset_mask == p.reset_mask;
pub assume_specification [RegisterProperties::reset_value](p: RegisterProperties, value: Option<u64>) -> (r: RegisterProperties)
    ensures r.reset_value == value, r.size == p.size, r.access == p.access, r.protection == p.protection, r.reset_mask == p.reset_mask;
pub assume_specification [RegisterProperties::reset_mask](p: RegisterProperties, value: Option<u64>) -> (r: RegisterProperties)
    ensures r.reset_mask == value, r.size == p.size, r.access == p.access, r.protection == p.protection, r.reset_value == p.reset_value;
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExFieldInfoBuilder(FieldInfoBuilder);
pub struct FieldB { pub name: Option<String>, pub description: Option<String>, pub bit_range: Option<BitRange>, pub bit_offset: Option<u32>, pub bit_width: Option<u32>, pub access: Option<Access>, pub modified_write_values: Option<ModifiedWriteValues>, pub write_constraint: Option<WriteConstraint>, pub read_action: Option<ReadAction>, pub enumerated_values: Option<Vec<EnumeratedValues>>, pub derived_from: Option<String> }
pub uninterp spec fn fld_b(b: FieldInfoBuilder) -> FieldB;
pub open spec fn fld_b_none(m: FieldB) -> bool { m.name is None && m.description is None && m.bit_range is None && m.bit_offset is None && m.bit_width is None && m.access is None && m.modified_write_values is None && m.write_constraint is None && m.read_action is None && m.enumerated_values is None && m.derived_from is None }
pub assume_specification [FieldInfo::builder]() -> (r: FieldInfoBuilder) ensures fld_b_none(fld_b(r));
pub assume_specification [<FieldInfoBuilder as Clone>::clone](b: &FieldInfoBuilder) -> (r: FieldInfoBuilder) ensures fld_b(r) == fld_b(*b);
pub assume_specification [FieldInfoBuilder::name](b: FieldInfoBuilder, value: String) -> (r: FieldInfoBuilder)
    ensures fld_b(r) == (FieldB { name: Some(value), ..fld_b(b) });
pub assume_specification [FieldInfoBuilder::description](b: FieldInfoBuilder, value: Option<String>) -> (r: FieldInfoBuilder)
    ensures fld_b(r) == (FieldB { description: value, ..fld_b(b) });
pub assume_specification [FieldInfoBuilder::bit_range](b: FieldInfoBuilder, value: BitRange) -> (r: FieldInfoBuilder)
    ensures fld_b(r) == (FieldB { bit_range: Some(value), bit_offset: None, bit_width: None, ..fld_b(b) });
pub assume_specification [FieldInfoBuilder::bit_offset](b: FieldInfoBuilder, value: u32) -> (r: FieldInfoBuilder)
    ensures match fld_b(b).bit_range {
        Some(br) => fld_b(r) == (FieldB { bit_range: Some(BitRange { offset: value, ..br }), ..fld_b(b) }),
        None => fld_b(b).bit_offset is None ==> fld_b(r) == (FieldB { bit_offset: Some(value), ..fld_b(b) }),
    };
pub assume_specification [FieldInfoBuilder::bit_width](b: FieldInfoBuilder, value: u32) -> (r: FieldInfoBuilder)
    ensures match fld_b(b).bit_range {
        Some(br) => fld_b(r) == (FieldB { bit_range: Some(BitRange { width: value, ..br }), ..fld_b(b) }),
        None => match fld_b(b).bit_offset {
            None => fld_b(r) == (FieldB { bit_width: Some(value), ..fld_b(b) }),
            Some(off) => fld_b(r) == (FieldB { bit_range: fld_b(r).bit_range, bit_offset: None, ..fld_b(b) }) && fld_b(r).bit_range is Some
                && fld_b(r).bit_range.unwrap().offset == off && fld_b(r).bit_range.unwrap().width == value && fld_b(r).bit_range.unwrap().range_type is OffsetWidth,
        },
    };
pub assume_specification [FieldInfoBuilder::access](b: FieldInfoBuilder, value: Option<Access>) -> (r: FieldInfoBuilder)
    ensures fld_b(r) == (FieldB { access: value, ..fld_b(b) });
pub assume_specification [FieldInfoBuilder::modified_write_values](b: FieldInfoBuilder, value: Option<ModifiedWriteValues>) -> (r: FieldInfoBuilder)
    ensures fld_b(r) == (FieldB { modified_write_values: value, ..fld_b(b) });
pub assume_specification [FieldInfoBuilder::write_constraint](b: FieldInfoBuilder, value: Option<WriteConstraint>) -> (r: FieldInfoBuilder)
    ensures fld_b(r) == (FieldB { write_constraint: value, ..fld_b(b) });
pub assume_specification [FieldInfoBuilder::read_action](b: FieldInfoBuilder, value: Option<ReadAction>) -> (r: FieldInfoBuilder)
    ensures fld_b(r) == (FieldB { read_action: value, ..fld_b(b) });
pub assume_specification [FieldInfoBuilder::enumerated_values](b: FieldInfoBuilder, value: Vec<EnumeratedValues>) -> (r: FieldInfoBuilder)
    ensures fld_b(r) == (FieldB { enumerated_values: Some(value), ..fld_b(b) });
pub assume_specification [FieldInfoBuilder::derived_from](b: FieldInfoBuilder, value: Option<String>) -> (r: FieldInfoBuilder)
    ensures fld_b(r) == (FieldB { derived_from: value, ..fld_b(b) });
pub open spec fn fld_built(m: FieldB, b: FieldInfo) -> bool {
    m.name == Some(b.name)
    && b.description == etn(m.description)
    && m.bit_range == Some(b.bit_range)
    && b.access == m.access
    && b.modified_write_values == m.modified_write_values
    && b.write_constraint == m.write_constraint
    && b.read_action == m.read_action
    && match m.enumerated_values { Some(x) => b.enumerated_values == x, None => b.enumerated_values@.len() == 0 }
    && b.derived_from == m.derived_from
}
pub assume_specification [FieldInfoBuilder::build](b: FieldInfoBuilder, lvl: ValidateLevel) -> (r: core::result::Result<FieldInfo, SvdError>)
    ensures r is Ok ==> fld_built(fld_b(b), r.unwrap()), lvl is Weak ==> ({ let m = fld_b(b); m.name is Some && m.bit_range is Some && m.bit_range.unwrap().width != 0 && (m.enumerated_values is None || m.enumerated_values.unwrap()@.len() == 0) } ==> r is Ok);
pub open spec fn fld_mod(a: FieldInfo, m: FieldB, b: FieldInfo) -> bool {
    b.name == or_keep(m.name, a.name)
    && b.description == (if m.description is Some { etn(m.description) } else { a.description })
    && b.bit_range.offset == (if m.bit_offset is Some { m.bit_offset.unwrap() } else { or_keep(m.bit_range, a.bit_range).offset })
    && b.bit_range.width == (if m.bit_width is Some { m.bit_width.unwrap() } else { or_keep(m.bit_range, a.bit_range).width })
    && b.bit_range.range_type == or_keep(m.bit_range, a.bit_range).range_type
    && b.access == or_old(m.access, a.access)
    && (if m.derived_from is Some { b.modified_write_values is None } else { b.modified_write_values == (or_old(m.modified_write_values, a.modified_write_values)) })
    && (if m.derived_from is Some { b.write_constraint is None } else { b.write_constraint == or_old(m.write_constraint, a.write_constraint) })
    && (if m.derived_from is Some { b.read_action == a.read_action } else { b.read_action == or_old(m.read_action, a.read_action) })
    && (if m.derived_from is Some { b.enumerated_values@.len() == 0 } else { b.enumerated_values == or_keep(m.enumerated_values, a.enumerated_values) })
    && (if m.derived_from is Some { b.derived_from == m.derived_from } else { b.derived_from == a.derived_from })
}
pub assume_specification [FieldInfo::modify_from](a: &mut FieldInfo, b: FieldInfoBuilder, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)
    ensures r is Ok ==> fld_mod(*old(a), fld_b(b), *final(a));
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExRegisterInfoBuilder(RegisterInfoBuilder);
pub struct RegB { pub name: Option<String>, pub display_name: Option<String>, pub description: Option<String>, pub alternate_group: Option<String>, pub alternate_register: Option<String>, pub address_offset: Option<u32>, pub properties: RegisterProperties, pub datatype: Option<DataType>, pub modified_write_values: Option<ModifiedWriteValues>, pub write_constraint: Option<WriteConstraint>, pub read_action: Option<ReadAction>, pub fields: Option<Vec<Field>>, pub derived_from: Option<String> }
pub uninterp spec fn reg_b(b: RegisterInfoBuilder) -> RegB;
pub open spec fn reg_b_none(m: RegB) -> bool { m.name is None && m.display_name is None && m.description is None && m.alternate_group is None && m.alternate_register is None && m.address_offset is None && rp_none(m.properties) && m.datatype is None && m.modified_write_values is None && m.write_constraint is None && m.read_action is None && m.fields is None && m.derived_from is None }
pub assume_specification [RegisterInfo::builder]() -> (r: RegisterInfoBuilder) ensures reg_b_none(reg_b(r));
pub assume_specification [<RegisterInfoBuilder as Clone>::clone](b: &RegisterInfoBuilder) -> (r: RegisterInfoBuilder) ensures reg_b(r) == reg_b(*b);
pub assume_specification [RegisterInfoBuilder::name](b: RegisterInfoBuilder, value: String) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { name: Some(value), ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::display_name](b: RegisterInfoBuilder, value: Option<String>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { display_name: value, ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::description](b: RegisterInfoBuilder, value: Option<String>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { description: value, ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::alternate_group](b: RegisterInfoBuilder, value: Option<String>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { alternate_group: value, ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::alternate_register](b: RegisterInfoBuilder, value: Option<String>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { alternate_register: value, ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::address_offset](b: RegisterInfoBuilder, value: u32) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { address_offset: Some(value), ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::properties](b: RegisterInfoBuilder, value: RegisterProperties) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { properties: value, ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::datatype](b: RegisterInfoBuilder, value: Option<DataType>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { datatype: value, ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::size](b: RegisterInfoBuilder, value: Option<u32>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { properties: reg_b(r).properties, ..reg_b(b) }), reg_b(r).properties.size == value, reg_b(r).properties.access == reg_b(b).properties.access, reg_b(r).properties.protection == reg_b(b).properties.protection, reg_b(r).properties.reset_value == reg_b(b).properties.reset_value, reg_b(r).properties.reset_mask == reg_b(b).properties.reset_mask;
pub assume_specification [RegisterInfoBuilder::access](b: RegisterInfoBuilder, value: Option<Access>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { properties: reg_b(r).properties, ..reg_b(b) }), reg_b(r).properties.access == value, reg_b(r).properties.size == reg_b(b).properties.size, reg_b(r).properties.protection == reg_b(b).properties.protection, reg_b(r).properties.reset_value == reg_b(b).properties.reset_value, reg_b(r).properties.reset_mask == reg_b(b).properties.reset_mask;
pub assume_specification [RegisterInfoBuilder::reset_value](b: RegisterInfoBuilder, value: Option<u64>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { properties: reg_b(r).properties, ..reg_b(b) }), reg_b(r).properties.reset_value == value, reg_b(r).properties.size == reg_b(b).properties.size, reg_b(r).properties.access == reg_b(b).properties.access, reg_b(r).properties.protection == reg_b(b).properties.protection, reg_b(r).properties.reset_mask == reg_b(b).properties.reset_mask;
pub assume_specification [RegisterInfoBuilder::reset_mask](b: RegisterInfoBuilder, value: Option<u64>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { properties: reg_b(r).properties, ..reg_b(b) }), reg_b(r).properties.reset_mask == value, reg_b(r).properties.size == reg_b(b).properties.size, reg_b(r).properties.access == reg_b(b).properties.access, reg_b(r).properties.protection == reg_b(b).properties.protection, reg_b(r).properties.reset_value == reg_b(b).properties.reset_value;
pub assume_specification [RegisterInfoBuilder::modified_write_values](b: RegisterInfoBuilder, value: Option<ModifiedWriteValues>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { modified_write_values: value, ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::write_constraint](b: RegisterInfoBuilder, value: Option<WriteConstraint>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { write_constraint: value, ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::read_action](b: RegisterInfoBuilder, value: Option<ReadAction>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { read_action: value, ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::fields](b: RegisterInfoBuilder, value: Option<Vec<Field>>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { fields: value, ..reg_b(b) });
pub assume_specification [RegisterInfoBuilder::derived_from](b: RegisterInfoBuilder, value: Option<String>) -> (r: RegisterInfoBuilder)
    ensures reg_b(r) == (RegB { derived_from: value, ..reg_b(b) });
pub open spec fn reg_built(m: RegB, b: RegisterInfo) -> bool {
    m.name == Some(b.name)
    && b.display_name == m.display_name
    && b.description == m.description
    && b.alternate_group == m.alternate_group
    && b.alternate_register == m.alternate_register
    && m.address_offset == Some(b.address_offset)
    && b.properties == m.properties
    && b.datatype == m.datatype
    && b.modified_write_values == m.modified_write_values
    && b.write_constraint == m.write_constraint
    && b.read_action == m.read_action
    && b.fields == m.fields
    && b.derived_from == m.derived_from
}
pub assume_specification [RegisterInfoBuilder::build](b: RegisterInfoBuilder, lvl: ValidateLevel) -> (r: core::result::Result<RegisterInfo, SvdError>)
    ensures r is Ok ==> reg_built(reg_b(b), r.unwrap());
pub open spec fn reg_mod(a: RegisterInfo, m: RegB, b: RegisterInfo) -> bool {
    b.name == or_keep(m.name, a.name)
    && b.display_name == (if m.display_name is Some { etn(m.display_name) } else { a.display_name })
    && b.description == (if m.description is Some { etn(m.description) } else { a.description })
    && b.alternate_group == (if m.alternate_group is Some { etn(m.alternate_group) } else { a.alternate_group })
    && b.alternate_register == (if m.alternate_register is Some { etn(m.alternate_register) } else { a.alternate_register })
    && b.address_offset == or_keep(m.address_offset, a.address_offset)
    && (if m.derived_from is Some { rp_none(b.properties) } else { rp_mod(a.properties, m.properties, b.properties) })
    && (if m.derived_from is Some { b.datatype is None } else { b.datatype == or_old(m.datatype, a.datatype) })
    && (if m.derived_from is Some { b.modified_write_values is None } else { b.modified_write_values == (or_old(m.modified_write_values, a.modified_write_values)) })
    && (if m.derived_from is Some { b.write_constraint is None } else { b.write_constraint == or_old(m.write_constraint, a.write_constraint) })
    && (if m.derived_from is Some { b.read_action == a.read_action } else { b.read_action == or_old(m.read_action, a.read_action) })
    && (if m.derived_from is Some { b.fields is None } else { b.fields == (if m.fields is Some { etnv(m.fields) } else { a.fields }) })
    && (if m.derived_from is Some { b.derived_from == m.derived_from } else { b.derived_from == a.derived_from })
}
pub assume_specification [RegisterInfo::modify_from](a: &mut RegisterInfo, b: RegisterInfoBuilder, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)
    ensures r is Ok ==> reg_mod(*old(a), reg_b(b), *final(a));
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExClusterInfoBuilder(ClusterInfoBuilder);
pub struct ClB { pub name: Option<String>, pub description: Option<String>, pub alternate_cluster: Option<String>, pub header_struct_name: Option<String>, pub address_offset: Option<u32>, pub default_register_properties: RegisterProperties, pub children: Option<Vec<RegisterCluster>>, pub derived_from: Option<String> }
pub uninterp spec fn cl_b(b: ClusterInfoBuilder) -> ClB;
pub open spec fn cl_b_none(m: ClB) -> bool { m.name is None && m.description is None && m.alternate_cluster is None && m.header_struct_name is None && m.address_offset is None && rp_none(m.default_register_properties) && m.children is None && m.derived_from is None }
pub assume_specification [ClusterInfo::builder]() -> (r: ClusterInfoBuilder) ensures cl_b_none(cl_b(r));
pub assume_specification [<ClusterInfoBuilder as Clone>::clone](b: &ClusterInfoBuilder) -> (r: ClusterInfoBuilder) ensures cl_b(r) == cl_b(*b);
pub assume_specification [ClusterInfoBuilder::name](b: ClusterInfoBuilder, value: String) -> (r: ClusterInfoBuilder)
    ensures cl_b(r) == (ClB { name: Some(value), ..cl_b(b) });
pub assume_specification [ClusterInfoBuilder::description](b: ClusterInfoBuilder, value: Option<String>) -> (r: ClusterInfoBuilder)
    ensures cl_b(r) == (ClB { description: value, ..cl_b(b) });
pub assume_specification [ClusterInfoBuilder::alternate_cluster](b: ClusterInfoBuilder, value: Option<String>) -> (r: ClusterInfoBuilder)
    ensures cl_b(r) == (ClB { alternate_cluster: value, ..cl_b(b) });
pub assume_specification [ClusterInfoBuilder::header_struct_name](b: ClusterInfoBuilder, value: Option<String>) -> (r: ClusterInfoBuilder)
    ensures cl_b(r) == (ClB { header_struct_name: value, ..cl_b(b) });
pub assume_specification [ClusterInfoBuilder::address_offset](b: ClusterInfoBuilder, value: u32) -> (r: ClusterInfoBuilder)
    ensures cl_b(r) == (ClB { address_offset: Some(value), ..cl_b(b) });
pub assume_specification [ClusterInfoBuilder::default_register_properties](b: ClusterInfoBuilder, value: RegisterProperties) -> (r: ClusterInfoBuilder)
    ensures cl_b(r) == (ClB { default_register_properties: value, ..cl_b(b) });
pub assume_specification [ClusterInfoBuilder::children](b: ClusterInfoBuilder, value: Vec<RegisterCluster>) -> (r: ClusterInfoBuilder)
    ensures cl_b(r) == (ClB { children: Some(value), ..cl_b(b) });
pub assume_specification [ClusterInfoBuilder::derived_from](b: ClusterInfoBuilder, value: Option<String>) -> (r: ClusterInfoBuilder)
    ensures cl_b(r) == (ClB { derived_from: value, ..cl_b(b) });
pub open spec fn cl_built(m: ClB, b: ClusterInfo) -> bool {
    m.name == Some(b.name)
    && b.description == etn(m.description)
    && b.alternate_cluster == etn(m.alternate_cluster)
    && b.header_struct_name == etn(m.header_struct_name)
    && m.address_offset == Some(b.address_offset)
    && b.default_register_properties == m.default_register_properties
    && m.children == Some(b.children)
    && b.derived_from == m.derived_from
}
pub assume_specification [ClusterInfoBuilder::build](b: ClusterInfoBuilder, lvl: ValidateLevel) -> (r: core::result::Result<ClusterInfo, SvdError>)
    ensures r is Ok ==> cl_built(cl_b(b), r.unwrap());
pub open spec fn cl_mod(a: ClusterInfo, m: ClB, b: ClusterInfo) -> bool {
    b.name == or_keep(m.name, a.name)
    && b.description == (if m.description is Some { etn(m.description) } else { a.description })
    && b.alternate_cluster == (if m.alternate_cluster is Some { etn(m.alternate_cluster) } else { a.alternate_cluster })
    && b.header_struct_name == (if m.header_struct_name is Some { etn(m.header_struct_name) } else { a.header_struct_name })
    && b.address_offset == or_keep(m.address_offset, a.address_offset)
    && (if m.derived_from is Some { rp_none(b.default_register_properties) } else { rp_mod(a.default_register_properties, m.default_register_properties, b.default_register_properties) })
    && (if m.derived_from is Some { b.children@.len() == 0 } else { b.children == or_keep(m.children, a.children) })
    && (if m.derived_from is Some { b.derived_from == m.derived_from } else { b.derived_from == a.derived_from })
}
pub assume_specification [ClusterInfo::modify_from](a: &mut ClusterInfo, b: ClusterInfoBuilder, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)
    ensures r is Ok ==> cl_mod(*old(a), cl_b(b), *final(a));
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPeripheralInfoBuilder(PeripheralInfoBuilder);
pub struct PerB { pub name: Option<String>, pub display_name: Option<String>, pub version: Option<String>, pub description: Option<String>, pub alternate_peripheral: Option<String>, pub group_name: Option<String>, pub prepend_to_name: Option<String>, pub append_to_name: Option<String>, pub header_struct_name: Option<String>, pub base_address: Option<u64>, pub default_register_properties: RegisterProperties, pub address_block: Option<Vec<AddressBlock>>, pub interrupt: Option<Vec<Interrupt>>, pub registers: Option<Vec<RegisterCluster>>, pub derived_from: Option<String> }
pub uninterp spec fn per_b(b: PeripheralInfoBuilder) -> PerB;
pub open spec fn per_b_none(m: PerB) -> bool { m.name is None && m.display_name is None && m.version is None && m.description is None && m.alternate_peripheral is None && m.group_name is None && m.prepend_to_name is None && m.append_to_name is None && m.header_struct_name is None && m.base_address is None && rp_none(m.default_register_properties) && m.address_block is None && m.interrupt is None && m.registers is None && m.derived_from is None }
pub assume_specification [PeripheralInfo::builder]() -> (r: PeripheralInfoBuilder) ensures per_b_none(per_b(r));
pub assume_specification [<PeripheralInfoBuilder as Clone>::clone](b: &PeripheralInfoBuilder) -> (r: PeripheralInfoBuilder) ensures per_b(r) == per_b(*b);
pub assume_specification [PeripheralInfoBuilder::name](b: PeripheralInfoBuilder, value: String) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { name: Some(value), ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::display_name](b: PeripheralInfoBuilder, value: Option<String>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { display_name: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::version](b: PeripheralInfoBuilder, value: Option<String>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { version: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::description](b: PeripheralInfoBuilder, value: Option<String>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { description: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::alternate_peripheral](b: PeripheralInfoBuilder, value: Option<String>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { alternate_peripheral: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::group_name](b: PeripheralInfoBuilder, value: Option<String>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { group_name: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::prepend_to_name](b: PeripheralInfoBuilder, value: Option<String>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { prepend_to_name: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::append_to_name](b: PeripheralInfoBuilder, value: Option<String>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { append_to_name: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::header_struct_name](b: PeripheralInfoBuilder, value: Option<String>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { header_struct_name: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::base_address](b: PeripheralInfoBuilder, value: u64) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { base_address: Some(value), ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::default_register_properties](b: PeripheralInfoBuilder, value: RegisterProperties) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { default_register_properties: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::address_block](b: PeripheralInfoBuilder, value: Option<Vec<AddressBlock>>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { address_block: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::interrupt](b: PeripheralInfoBuilder, value: Option<Vec<Interrupt>>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { interrupt: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::registers](b: PeripheralInfoBuilder, value: Option<Vec<RegisterCluster>>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { registers: value, ..per_b(b) });
pub assume_specification [PeripheralInfoBuilder::derived_from](b: PeripheralInfoBuilder, value: Option<String>) -> (r: PeripheralInfoBuilder)
    ensures per_b(r) == (PerB { derived_from: value, ..per_b(b) });
pub open spec fn per_built(m: PerB, b: PeripheralInfo) -> bool {
    m.name == Some(b.name)
    && b.display_name == etn(m.display_name)
    && b.version == etn(m.version)
    && b.description == etn(m.description)
    && b.alternate_peripheral == etn(m.alternate_peripheral)
    && b.group_name == etn(m.group_name)
    && b.prepend_to_name == etn(m.prepend_to_name)
    && b.append_to_name == etn(m.append_to_name)
    && b.header_struct_name == etn(m.header_struct_name)
    && m.base_address == Some(b.base_address)
    && b.default_register_properties == m.default_register_properties
    && b.address_block == m.address_block
    && match m.interrupt { Some(x) => b.interrupt == x, None => b.interrupt@.len() == 0 }
    && b.registers == m.registers
    && b.derived_from == m.derived_from
}
pub assume_specification [PeripheralInfoBuilder::build](b: PeripheralInfoBuilder, lvl: ValidateLevel) -> (r: core::result::Result<PeripheralInfo, SvdError>)
    ensures r is Ok ==> per_built(per_b(b), r.unwrap());
pub open spec fn per_mod(a: PeripheralInfo, m: PerB, b: PeripheralInfo) -> bool {
    b.name == or_keep(m.name, a.name)
    && b.display_name == (if m.display_name is Some { etn(m.display_name) } else { a.display_name })
    && b.version == (if m.version is Some { etn(m.version) } else { a.version })
    && b.description == (if m.description is Some { etn(m.description) } else { a.description })
    && b.alternate_peripheral == (if m.alternate_peripheral is Some { etn(m.alternate_peripheral) } else { a.alternate_peripheral })
    && b.group_name == (if m.group_name is Some { etn(m.group_name) } else { a.group_name })
    && b.prepend_to_name == (if m.prepend_to_name is Some { etn(m.prepend_to_name) } else { a.prepend_to_name })
    && b.append_to_name == (if m.append_to_name is Some { etn(m.append_to_name) } else { a.append_to_name })
    && b.header_struct_name == (if m.header_struct_name is Some { etn(m.header_struct_name) } else { a.header_struct_name })
    && b.base_address == or_keep(m.base_address, a.base_address)
    && (if m.derived_from is Some { rp_none(b.default_register_properties) } else { rp_mod(a.default_register_properties, m.default_register_properties, b.default_register_properties) })
    && (if m.derived_from is Some { b.address_block is None } else { b.address_block == or_old(m.address_block, a.address_block) })
    && b.interrupt == or_keep(m.interrupt, a.interrupt)
    && (if m.derived_from is Some { b.registers is None } else { b.registers == (if m.registers is Some { etnv(m.registers) } else { a.registers }) })
    && (if m.derived_from is Some { b.derived_from == m.derived_from } else { b.derived_from == a.derived_from })
}
pub assume_specification [PeripheralInfo::modify_from](a: &mut PeripheralInfo, b: PeripheralInfoBuilder, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)
    ensures r is Ok ==> per_mod(*old(a), per_b(b), *final(a));
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExInterruptBuilder(InterruptBuilder);
pub struct IntB { pub name: Option<String>, pub description: Option<String>, pub value: Option<u32> }
pub uninterp spec fn int_b(b: InterruptBuilder) -> IntB;
pub open spec fn int_b_none(m: IntB) -> bool { m.name is None && m.description is None && m.value is None }
pub assume_specification [Interrupt::builder]() -> (r: InterruptBuilder) ensures int_b_none(int_b(r));
pub assume_specification [<InterruptBuilder as Clone>::clone](b: &InterruptBuilder) -> (r: InterruptBuilder) ensures int_b(r) == int_b(*b);
pub assume_specification [InterruptBuilder::name](b: InterruptBuilder, value: String) -> (r: InterruptBuilder)
    ensures int_b(r) == (IntB { name: Some(value), ..int_b(b) });
pub assume_specification [InterruptBuilder::description](b: InterruptBuilder, value: Option<String>) -> (r: InterruptBuilder)
    ensures int_b(r) == (IntB { description: value, ..int_b(b) });
pub assume_specification [InterruptBuilder::value](b: InterruptBuilder, value: u32) -> (r: InterruptBuilder)
    ensures int_b(r) == (IntB { value: Some(value), ..int_b(b) });
pub open spec fn int_built(m: IntB, b: Interrupt) -> bool {
    m.name == Some(b.name)
    && b.description == m.description
    && m.value == Some(b.value)
}
pub assume_specification [InterruptBuilder::build](b: InterruptBuilder, lvl: ValidateLevel) -> (r: core::result::Result<Interrupt, SvdError>)
    ensures r is Ok ==> int_built(int_b(b), r.unwrap()), lvl is Weak ==> ({ let m = int_b(b); m.name is Some && m.value is Some } ==> r is Ok);
pub open spec fn int_mod(a: Interrupt, m: IntB, b: Interrupt) -> bool {
    b.name == or_keep(m.name, a.name)
    && b.description == or_old(m.description, a.description)
    && b.value == or_keep(m.value, a.value)
}
pub assume_specification [Interrupt::modify_from](a: &mut Interrupt, b: InterruptBuilder, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)
    ensures r is Ok ==> int_mod(*old(a), int_b(b), *final(a));
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExDimElementBuilder(DimElementBuilder);
pub struct DimB { pub dim: Option<u32>, pub dim_increment: Option<u32>, pub dim_index: Option<Vec<String>>, pub dim_name: Option<String>, pub dim_array_index: Option<DimArrayIndex> }
pub uninterp spec fn dim_b(b: DimElementBuilder) -> DimB;
pub open spec fn dim_b_none(m: DimB) -> bool { m.dim is None && m.dim_increment is None && m.dim_index is None && m.dim_name is None && m.dim_array_index is None }
pub assume_specification [DimElement::builder]() -> (r: DimElementBuilder) ensures dim_b_none(dim_b(r));
pub assume_specification [<DimElementBuilder as Clone>::clone](b: &DimElementBuilder) -> (r: DimElementBuilder) ensures dim_b(r) == dim_b(*b);
pub assume_specification [DimElementBuilder::dim](b: DimElementBuilder, value: u32) -> (r: DimElementBuilder)
    ensures dim_b(r) == (DimB { dim: Some(value), ..dim_b(b) });
pub assume_specification [DimElementBuilder::dim_increment](b: DimElementBuilder, value: u32) -> (r: DimElementBuilder)
    ensures dim_b(r) == (DimB { dim_increment: Some(value), ..dim_b(b) });
pub assume_specification [DimElementBuilder::dim_index](b: DimElementBuilder, value: Option<Vec<String>>) -> (r: DimElementBuilder)
    ensures dim_b(r) == (DimB { dim_index: value, ..dim_b(b) });
pub assume_specification [DimElementBuilder::dim_name](b: DimElementBuilder, value: Option<String>) -> (r: DimElementBuilder)
    ensures dim_b(r) == (DimB { dim_name: value, ..dim_b(b) });
pub assume_specification [DimElementBuilder::dim_array_index](b: DimElementBuilder, value: Option<DimArrayIndex>) -> (r: DimElementBuilder)
    ensures dim_b(r) == (DimB { dim_array_index: value, ..dim_b(b) });
pub open spec fn dim_built(m: DimB, b: DimElement) -> bool {
    m.dim == Some(b.dim)
    && m.dim_increment == Some(b.dim_increment)
    && b.dim_index == etnv(m.dim_index)
    && b.dim_name == etn(m.dim_name)
    && b.dim_array_index == m.dim_array_index
}
pub assume_specification [DimElementBuilder::build](b: DimElementBuilder, lvl: ValidateLevel) -> (r: core::result::Result<DimElement, SvdError>)
    ensures r is Ok ==> dim_built(dim_b(b), r.unwrap()), lvl is Weak ==> ({ let m = dim_b(b); m.dim is Some && m.dim_increment is Some } ==> r is Ok);
pub open spec fn dim_mod(a: DimElement, m: DimB, b: DimElement) -> bool {
    b.dim == or_keep(m.dim, a.dim)
    && b.dim_increment == or_keep(m.dim_increment, a.dim_increment)
    && b.dim_index == (if m.dim_index is Some { etnv(m.dim_index) } else { a.dim_index })
    && b.dim_name == (if m.dim_name is Some { etn(m.dim_name) } else { a.dim_name })
    && b.dim_array_index == or_old(m.dim_array_index, a.dim_array_index)
}
pub assume_specification [DimElement::modify_from](a: &mut DimElement, b: DimElementBuilder, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)
    ensures r is Ok ==> dim_mod(*old(a), dim_b(b), *final(a));
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExEnumeratedValuesBuilder(EnumeratedValuesBuilder);
pub struct EvsB { pub name: Option<String>, pub usage: Option<Usage>, pub derived_from: Option<String>, pub values: Option<Vec<EnumeratedValue>> }
pub uninterp spec fn evs_b(b: EnumeratedValuesBuilder) -> EvsB;
pub open spec fn evs_b_none(m: EvsB) -> bool { m.name is None && m.usage is None && m.derived_from is None && m.values is None }
pub assume_specification [EnumeratedValues::builder]() -> (r: EnumeratedValuesBuilder) ensures evs_b_none(evs_b(r));
pub assume_specification [<EnumeratedValuesBuilder as Clone>::clone](b: &EnumeratedValuesBuilder) -> (r: EnumeratedValuesBuilder) ensures evs_b(r) == evs_b(*b);
pub assume_specification [EnumeratedValuesBuilder::name](b: EnumeratedValuesBuilder, value: Option<String>) -> (r: EnumeratedValuesBuilder)
    ensures evs_b(r) == (EvsB { name: value, ..evs_b(b) });
pub assume_specification [EnumeratedValuesBuilder::usage](b: EnumeratedValuesBuilder, value: Option<Usage>) -> (r: EnumeratedValuesBuilder)
    ensures evs_b(r) == (EvsB { usage: value, ..evs_b(b) });
pub assume_specification [EnumeratedValuesBuilder::derived_from](b: EnumeratedValuesBuilder, value: Option<String>) -> (r: EnumeratedValuesBuilder)
    ensures evs_b(r) == (EvsB { derived_from: value, ..evs_b(b) });
pub assume_specification [EnumeratedValuesBuilder::values](b: EnumeratedValuesBuilder, value: Vec<EnumeratedValue>) -> (r: EnumeratedValuesBuilder)
    ensures evs_b(r) == (EvsB { values: Some(value), ..evs_b(b) });
pub open spec fn evs_built(m: EvsB, b: EnumeratedValues) -> bool {
    b.name == etn(m.name)
    && b.usage == m.usage
    && b.derived_from == m.derived_from
    && match m.values { Some(x) => b.values == x, None => b.values@.len() == 0 }
}
pub assume_specification [EnumeratedValuesBuilder::build](b: EnumeratedValuesBuilder, lvl: ValidateLevel) -> (r: core::result::Result<EnumeratedValues, SvdError>)
    ensures r is Ok ==> evs_built(evs_b(b), r.unwrap()), lvl is Weak ==> ({ let m = evs_b(b); m.derived_from is Some || (m.values is Some && m.values.unwrap()@.len() > 0) } ==> r is Ok);
pub open spec fn evs_mod(a: EnumeratedValues, m: EvsB, b: EnumeratedValues) -> bool {
    (if m.derived_from is Some { b.name is None } else { b.name == (if m.name is Some { etn(m.name) } else { a.name }) })
    && (if m.derived_from is Some { b.usage is None } else { b.usage == or_old(m.usage, a.usage) })
    && b.derived_from == a.derived_from
    && (if m.derived_from is Some { b.values@.len() == 0 } else { b.values == or_keep(m.values, a.values) })
}
pub assume_specification [EnumeratedValues::modify_from](a: &mut EnumeratedValues, b: EnumeratedValuesBuilder, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)
    ensures r is Ok ==> evs_mod(*old(a), evs_b(b), *final(a));
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExEnumeratedValueBuilder(EnumeratedValueBuilder);
pub struct EvB { pub name: Option<String>, pub description: Option<String>, pub value: Option<u64>, pub is_default: Option<bool> }
pub uninterp spec fn ev_b(b: EnumeratedValueBuilder) -> EvB;
pub open spec fn ev_b_none(m: EvB) -> bool { m.name is None && m.description is None && m.value is None && m.is_default is None }
pub assume_specification [EnumeratedValue::builder]() -> (r: EnumeratedValueBuilder) ensures ev_b_none(ev_b(r));
pub assume_specification [<EnumeratedValueBuilder as Clone>::clone](b: &EnumeratedValueBuilder) -> (r: EnumeratedValueBuilder) ensures ev_b(r) == ev_b(*b);
pub assume_specification [EnumeratedValueBuilder::name](b: EnumeratedValueBuilder, value: String) -> (r: EnumeratedValueBuilder)
    ensures ev_b(r) == (EvB { name: Some(value), ..ev_b(b) });
pub assume_specification [EnumeratedValueBuilder::description](b: EnumeratedValueBuilder, value: Option<String>) -> (r: EnumeratedValueBuilder)
    ensures ev_b(r) == (EvB { description: value, ..ev_b(b) });
pub assume_specification [EnumeratedValueBuilder::value](b: EnumeratedValueBuilder, value: Option<u64>) -> (r: EnumeratedValueBuilder)
    ensures ev_b(r) == (EvB { value: value, ..ev_b(b) });
pub assume_specification [EnumeratedValueBuilder::is_default](b: EnumeratedValueBuilder, value: Option<bool>) -> (r: EnumeratedValueBuilder)
    ensures ev_b(r) == (EvB { is_default: value, ..ev_b(b) });
pub open spec fn ev_built(m: EvB, b: EnumeratedValue) -> bool {
    m.name == Some(b.name)
    && b.description == etn(m.description)
    && b.value == m.value
    && b.is_default == m.is_default
}
pub assume_specification [EnumeratedValueBuilder::build](b: EnumeratedValueBuilder, lvl: ValidateLevel) -> (r: core::result::Result<EnumeratedValue, SvdError>)
    ensures r is Ok ==> ev_built(ev_b(b), r.unwrap());
pub open spec fn ev_mod(a: EnumeratedValue, m: EvB, b: EnumeratedValue) -> bool {
    b.name == or_keep(m.name, a.name)
    && b.description == (if m.description is Some { etn(m.description) } else { a.description })
    && b.value == or_old(m.value, a.value)
    && b.is_default == or_old(m.is_default, a.is_default)
}
pub assume_specification [EnumeratedValue::modify_from](a: &mut EnumeratedValue, b: EnumeratedValueBuilder, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)
    ensures r is Ok ==> ev_mod(*old(a), ev_b(b), *final(a));
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExCpuBuilder(CpuBuilder);
pub struct CpuB { pub name: Option<String>, pub revision: Option<String>, pub endian: Option<Endian>, pub mpu_present: Option<bool>, pub fpu_present: Option<bool>, pub fpu_double_precision: Option<bool>, pub dsp_present: Option<bool>, pub icache_present: Option<bool>, pub dcache_present: Option<bool>, pub itcm_present: Option<bool>, pub dtcm_present: Option<bool>, pub vtor_present: Option<bool>, pub nvic_priority_bits: Option<u32>, pub has_vendor_systick: Option<bool>, pub device_num_interrupts: Option<u32>, pub sau_num_regions: Option<u32> }
pub uninterp spec fn cpu_b(b: CpuBuilder) -> CpuB;
pub open spec fn cpu_b_none(m: CpuB) -> bool { m.name is None && m.revision is None && m.endian is None && m.mpu_present is None && m.fpu_present is None && m.fpu_double_precision is None && m.dsp_present is None && m.icache_present is None && m.dcache_present is None && m.itcm_present is None && m.dtcm_present is None && m.vtor_present is None && m.nvic_priority_bits is None && m.has_vendor_systick is None && m.device_num_interrupts is None && m.sau_num_regions is None }
pub assume_specification [Cpu::builder]() -> (r: CpuBuilder) ensures cpu_b_none(cpu_b(r));
pub assume_specification [<CpuBuilder as Clone>::clone](b: &CpuBuilder) -> (r: CpuBuilder) ensures cpu_b(r) == cpu_b(*b);
pub assume_specification [CpuBuilder::name](b: CpuBuilder, value: String) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { name: Some(value), ..cpu_b(b) });
pub assume_specification [CpuBuilder::revision](b: CpuBuilder, value: String) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { revision: Some(value), ..cpu_b(b) });
pub assume_specification [CpuBuilder::endian](b: CpuBuilder, value: Endian) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { endian: Some(value), ..cpu_b(b) });
pub assume_specification [CpuBuilder::mpu_present](b: CpuBuilder, value: bool) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { mpu_present: Some(value), ..cpu_b(b) });
pub assume_specification [CpuBuilder::fpu_present](b: CpuBuilder, value: bool) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { fpu_present: Some(value), ..cpu_b(b) });
pub assume_specification [CpuBuilder::fpu_double_precision](b: CpuBuilder, value: Option<bool>) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { fpu_double_precision: value, ..cpu_b(b) });
pub assume_specification [CpuBuilder::dsp_present](b: CpuBuilder, value: Option<bool>) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { dsp_present: value, ..cpu_b(b) });
pub assume_specification [CpuBuilder::icache_present](b: CpuBuilder, value: Option<bool>) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { icache_present: value, ..cpu_b(b) });
pub assume_specification [CpuBuilder::dcache_present](b: CpuBuilder, value: Option<bool>) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { dcache_present: value, ..cpu_b(b) });
pub assume_specification [CpuBuilder::itcm_present](b: CpuBuilder, value: Option<bool>) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { itcm_present: value, ..cpu_b(b) });
pub assume_specification [CpuBuilder::dtcm_present](b: CpuBuilder, value: Option<bool>) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { dtcm_present: value, ..cpu_b(b) });
pub assume_specification [CpuBuilder::vtor_present](b: CpuBuilder, value: Option<bool>) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { vtor_present: value, ..cpu_b(b) });
pub assume_specification [CpuBuilder::nvic_priority_bits](b: CpuBuilder, value: u32) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { nvic_priority_bits: Some(value), ..cpu_b(b) });
pub assume_specification [CpuBuilder::has_vendor_systick](b: CpuBuilder, value: bool) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { has_vendor_systick: Some(value), ..cpu_b(b) });
pub assume_specification [CpuBuilder::device_num_interrupts](b: CpuBuilder, value: Option<u32>) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { device_num_interrupts: value, ..cpu_b(b) });
pub assume_specification [CpuBuilder::sau_num_regions](b: CpuBuilder, value: Option<u32>) -> (r: CpuBuilder)
    ensures cpu_b(r) == (CpuB { sau_num_regions: value, ..cpu_b(b) });
pub open spec fn cpu_built(m: CpuB, b: Cpu) -> bool {
    m.name == Some(b.name)
    && m.revision == Some(b.revision)
    && m.endian == Some(b.endian)
    && m.mpu_present == Some(b.mpu_present)
    && m.fpu_present == Some(b.fpu_present)
    && b.fpu_double_precision == m.fpu_double_precision
    && b.dsp_present == m.dsp_present
    && b.icache_present == m.icache_present
    && b.dcache_present == m.dcache_present
    && b.itcm_present == m.itcm_present
    && b.dtcm_present == m.dtcm_present
    && b.vtor_present == m.vtor_present
    && m.nvic_priority_bits == Some(b.nvic_priority_bits)
    && m.has_vendor_systick == Some(b.has_vendor_systick)
    && b.device_num_interrupts == m.device_num_interrupts
    && b.sau_num_regions == m.sau_num_regions
}
pub assume_specification [CpuBuilder::build](b: CpuBuilder, lvl: ValidateLevel) -> (r: core::result::Result<Cpu, SvdError>)
    ensures r is Ok ==> cpu_built(cpu_b(b), r.unwrap());
pub open spec fn cpu_mod(a: Cpu, m: CpuB, b: Cpu) -> bool {
    b.name == or_keep(m.name, a.name)
    && b.revision == or_keep(m.revision, a.revision)
    && b.endian == or_keep(m.endian, a.endian)
    && b.mpu_present == or_keep(m.mpu_present, a.mpu_present)
    && b.fpu_present == or_keep(m.fpu_present, a.fpu_present)
    && b.fpu_double_precision == or_old(m.fpu_double_precision, a.fpu_double_precision)
    && b.dsp_present == or_old(m.dsp_present, a.dsp_present)
    && b.icache_present == or_old(m.icache_present, a.icache_present)
    && b.dcache_present == or_old(m.dcache_present, a.dcache_present)
    && b.itcm_present == or_old(m.itcm_present, a.itcm_present)
    && b.dtcm_present == or_old(m.dtcm_present, a.dtcm_present)
    && b.vtor_present == or_old(m.vtor_present, a.vtor_present)
    && b.nvic_priority_bits == or_keep(m.nvic_priority_bits, a.nvic_priority_bits)
    && b.has_vendor_systick == or_keep(m.has_vendor_systick, a.has_vendor_systick)
    && b.device_num_interrupts == or_old(m.device_num_interrupts, a.device_num_interrupts)
    && b.sau_num_regions == or_old(m.sau_num_regions, a.sau_num_regions)
}
pub assume_specification [Cpu::modify_from](a: &mut Cpu, b: CpuBuilder, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)
    ensures r is Ok ==> cpu_mod(*old(a), cpu_b(b), *final(a));
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAddressBlockBuilder(AddressBlockBuilder);
pub struct AbB { pub offset: Option<u32>, pub size: Option<u32>, pub usage: Option<AddressBlockUsage>, pub protection: Option<Protection> }
pub uninterp spec fn ab_b(b: AddressBlockBuilder) -> AbB;
pub open spec fn ab_b_none(m: AbB) -> bool { m.offset is None && m.size is None && m.usage is None && m.protection is None }
pub assume_specification [AddressBlock::builder]() -> (r: AddressBlockBuilder) ensures ab_b_none(ab_b(r));
pub assume_specification [<AddressBlockBuilder as Clone>::clone](b: &AddressBlockBuilder) -> (r: AddressBlockBuilder) ensures ab_b(r) == ab_b(*b);
pub assume_specification [AddressBlockBuilder::offset](b: AddressBlockBuilder, value: u32) -> (r: AddressBlockBuilder)
    ensures ab_b(r) == (AbB { offset: Some(value), ..ab_b(b) });
pub assume_specification [AddressBlockBuilder::size](b: AddressBlockBuilder, value: u32) -> (r: AddressBlockBuilder)
    ensures ab_b(r) == (AbB { size: Some(value), ..ab_b(b) });
pub assume_specification [AddressBlockBuilder::usage](b: AddressBlockBuilder, value: AddressBlockUsage) -> (r: AddressBlockBuilder)
    ensures ab_b(r) == (AbB { usage: Some(value), ..ab_b(b) });
pub assume_specification [AddressBlockBuilder::protection](b: AddressBlockBuilder, value: Option<Protection>) -> (r: AddressBlockBuilder)
    ensures ab_b(r) == (AbB { protection: value, ..ab_b(b) });
pub open spec fn ab_built(m: AbB, b: AddressBlock) -> bool {
    m.offset == Some(b.offset)
    && m.size == Some(b.size)
    && m.usage == Some(b.usage)
    && b.protection == m.protection
}
pub assume_specification [AddressBlockBuilder::build](b: AddressBlockBuilder, lvl: ValidateLevel) -> (r: core::result::Result<AddressBlock, SvdError>)
    ensures r is Ok ==> ab_built(ab_b(b), r.unwrap());
pub open spec fn ab_mod(a: AddressBlock, m: AbB, b: AddressBlock) -> bool {
    b.offset == or_keep(m.offset, a.offset)
    && b.size == or_keep(m.size, a.size)
    && b.usage == or_keep(m.usage, a.usage)
    && b.protection == or_old(m.protection, a.protection)
}
pub assume_specification [AddressBlock::modify_from](a: &mut AddressBlock, b: AddressBlockBuilder, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)
    ensures r is Ok ==> ab_mod(*old(a), ab_b(b), *final(a));
pub assume_specification [FieldInfo::single](x: FieldInfo) -> (r: Field) ensures r == MaybeArray::Single(x);
pub assume_specification [FieldInfo::array](x: FieldInfo, d: DimElement) -> (r: Field) ensures r == MaybeArray::Array(x, d);
pub assume_specification [FieldInfo::maybe_array](x: FieldInfo, d: Option<DimElement>) -> (r: Field) ensures r == (match d { Some(d) => MaybeArray::Array(x, d), None => MaybeArray::Single(x) });
pub assume_specification [RegisterInfo::single](x: RegisterInfo) -> (r: Register) ensures r == MaybeArray::Single(x);
pub assume_specification [RegisterInfo::array](x: RegisterInfo, d: DimElement) -> (r: Register) ensures r == MaybeArray::Array(x, d);
pub assume_specification [RegisterInfo::maybe_array](x: RegisterInfo, d: Option<DimElement>) -> (r: Register) ensures r == (match d { Some(d) => MaybeArray::Array(x, d), None => MaybeArray::Single(x) });
pub assume_specification [ClusterInfo::single](x: ClusterInfo) -> (r: Cluster) ensures r == MaybeArray::Single(x);
pub assume_specification [ClusterInfo::array](x: ClusterInfo, d: DimElement) -> (r: Cluster) ensures r == MaybeArray::Array(x, d);
pub assume_specification [ClusterInfo::maybe_array](x: ClusterInfo, d: Option<DimElement>) -> (r: Cluster) ensures r == (match d { Some(d) => MaybeArray::Array(x, d), None => MaybeArray::Single(x) });
pub assume_specification [PeripheralInfo::single](x: PeripheralInfo) -> (r: Peripheral) ensures r == MaybeArray::Single(x);
pub assume_specification [PeripheralInfo::array](x: PeripheralInfo, d: DimElement) -> (r: Peripheral) ensures r == MaybeArray::Array(x, d);
pub assume_specification [PeripheralInfo::maybe_array](x: PeripheralInfo, d: Option<DimElement>) -> (r: Peripheral) ensures r == (match d { Some(d) => MaybeArray::Array(x, d), None => MaybeArray::Single(x) });
}
