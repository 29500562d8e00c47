// generated by tools/gen_proc.py
//@use p_base.rs p_svd.rs p_frames.rs p_std.rs
//@import p_block.rs p_spec.rs p_iter.rs p_kids.rs p_yaml.rs p_yamlm.rs p_hash.rs p_prog.rs
//@methods Device: delete_peripheral copy_peripheral modify_peripheral modify_cpu add_peripheral derive_peripheral rebase_peripheral clear_fields process_peripheral
verus! {
#[verifier::external_body] pub struct Config {}
// the words of a section that are not names
pub open spec fn kw_d_spec(s: Seq<char>) -> bool { s == "_svd"@ || s == "_include"@ || s == "_path"@ || s == "_delete"@ || s == "_copy"@ || s == "_modify"@ || s == "_clear_fields"@ || s == "_add"@ || s == "_derive"@ || s == "_rebase"@ }
//@words kw_d | src/patch/device.rs | DeviceExt | KEYWORDS
#[verifier::external_body] pub fn Device__delete_peripheral(self_: &mut Device, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DelPer(s_@), *final(self_)),  { unimplemented!() }
#[verifier::external_body] pub fn Device__clear_fields(self_: &mut Device, s_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Clear(s_@), *final(self_)),  { unimplemented!() }
#[verifier::external_body] pub fn Device__modify_peripheral(self_: &mut Device, s_: &str, h_: &Hash) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ModPer(s_@, *h_), *final(self_)),  { unimplemented!() }
#[verifier::external_body] pub fn Device__add_peripheral(self_: &mut Device, s_: &str, h_: &Hash) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::AddPer(s_@, *h_), *final(self_)),  { unimplemented!() }
#[verifier::external_body] pub fn Device__copy_peripheral(self_: &mut Device, s_: &str, h_: &Hash, p_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::CopyPer(s_@, *h_), *final(self_)),  { unimplemented!() }
#[verifier::external_body] pub fn Device__modify_cpu(self_: &mut Device, h_: &Hash) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::ModCpu(*h_), *final(self_)),  { unimplemented!() }
#[verifier::external_body] pub fn Device__derive_peripheral(self_: &mut Device, s_: &str, y_: &Yaml) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::DerPer(s_@, *y_), *final(self_)),  { unimplemented!() }
#[verifier::external_body] pub fn Device__rebase_peripheral(self_: &mut Device, s_: &str, o_: &str) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Rebase(s_@, o_@), *final(self_)),  { unimplemented!() }
#[verifier::external_body] pub fn Device__process_peripheral(self_: &mut Device, s_: &str, h_: &Hash, c_: &Config) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), Op::Per(s_@, *h_), *final(self_)),  { unimplemented!() }
pub open spec fn f_del() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::DelPer(e)] }
pub open spec fn f_clear() -> spec_fn(Seq<char>) -> Seq<Op> { |e: Seq<char>| seq![Op::Clear(e)] }
pub open spec fn f_copy() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::CopyPer(kstr(e.0), hv(e.1))] }
pub open spec fn f_add() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::AddPer(kstr(e.0), hv(e.1))] }
pub open spec fn f_modper() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::ModPer(kstr(e.0), hv(e.1))] }
pub open spec fn f_der() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::DerPer(kstr(e.0), e.1)] }
pub open spec fn f_reb() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| seq![Op::Rebase(kstr(e.0), kstr(e.1))] }
pub open spec fn f_per() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kw_d(kstr(e.0)) { Seq::empty() } else { seq![Op::Per(kstr(e.0), hv(e.1))] } }
pub open spec fn dev_attr(s: Seq<char>) -> bool { s == "vendor"@ || s == "vendorID"@ || s == "name"@ || s == "series"@ || s == "version"@ || s == "description"@ || s == "licenseText"@ || s == "headerSystemFilename"@ || s == "headerDefinitionsPrefix"@ || s == "addressUnitBits"@ || s == "width"@ || s == "size"@ || s == "access"@ || s == "protection"@ || s == "resetValue"@ || s == "resetMask"@ }
pub uninterp spec fn rp_set(a: RegisterProperties, k: Seq<char>, v: Yaml, b: RegisterProperties) -> bool;
pub open spec fn ostr(o: Option<String>, v: Yaml) -> bool { match (o, ystr(v)) { (Some(s), Some(t)) => s@ == t, _ => false } }
pub open spec fn attr_set(a: Device, k: Seq<char>, v: Yaml, b: Device) -> bool {
    if k == "vendor"@ { b.vendor_id == a.vendor_id && b.name == a.name && b.series == a.series && b.version == a.version && b.description == a.description && b.license_text == a.license_text && b.header_system_filename == a.header_system_filename && b.header_definitions_prefix == a.header_definitions_prefix && b.address_unit_bits == a.address_unit_bits && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && ostr(b.vendor, v) } else if k == "vendorID"@ { b.vendor == a.vendor && b.name == a.name && b.series == a.series && b.version == a.version && b.description == a.description && b.license_text == a.license_text && b.header_system_filename == a.header_system_filename && b.header_definitions_prefix == a.header_definitions_prefix && b.address_unit_bits == a.address_unit_bits && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && ostr(b.vendor_id, v) } else if k == "name"@ { b.vendor == a.vendor && b.vendor_id == a.vendor_id && b.series == a.series && b.version == a.version && b.description == a.description && b.license_text == a.license_text && b.header_system_filename == a.header_system_filename && b.header_definitions_prefix == a.header_definitions_prefix && b.address_unit_bits == a.address_unit_bits && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && Some(b.name@) == ystr(v) } else if k == "series"@ { b.vendor == a.vendor && b.vendor_id == a.vendor_id && b.name == a.name && b.version == a.version && b.description == a.description && b.license_text == a.license_text && b.header_system_filename == a.header_system_filename && b.header_definitions_prefix == a.header_definitions_prefix && b.address_unit_bits == a.address_unit_bits && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && ostr(b.series, v) } else if k == "version"@ { b.vendor == a.vendor && b.vendor_id == a.vendor_id && b.name == a.name && b.series == a.series && b.description == a.description && b.license_text == a.license_text && b.header_system_filename == a.header_system_filename && b.header_definitions_prefix == a.header_definitions_prefix && b.address_unit_bits == a.address_unit_bits && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && Some(b.version@) == ystr(v) } else if k == "description"@ { b.vendor == a.vendor && b.vendor_id == a.vendor_id && b.name == a.name && b.series == a.series && b.version == a.version && b.license_text == a.license_text && b.header_system_filename == a.header_system_filename && b.header_definitions_prefix == a.header_definitions_prefix && b.address_unit_bits == a.address_unit_bits && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && Some(b.description@) == ystr(v) } else if k == "licenseText"@ { b.vendor == a.vendor && b.vendor_id == a.vendor_id && b.name == a.name && b.series == a.series && b.version == a.version && b.description == a.description && b.header_system_filename == a.header_system_filename && b.header_definitions_prefix == a.header_definitions_prefix && b.address_unit_bits == a.address_unit_bits && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && ostr(b.license_text, v) } else if k == "headerSystemFilename"@ { b.vendor == a.vendor && b.vendor_id == a.vendor_id && b.name == a.name && b.series == a.series && b.version == a.version && b.description == a.description && b.license_text == a.license_text && b.header_definitions_prefix == a.header_definitions_prefix && b.address_unit_bits == a.address_unit_bits && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && ostr(b.header_system_filename, v) } else if k == "headerDefinitionsPrefix"@ { b.vendor == a.vendor && b.vendor_id == a.vendor_id && b.name == a.name && b.series == a.series && b.version == a.version && b.description == a.description && b.license_text == a.license_text && b.header_system_filename == a.header_system_filename && b.address_unit_bits == a.address_unit_bits && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && ostr(b.header_definitions_prefix, v) } else if k == "addressUnitBits"@ { b.vendor == a.vendor && b.vendor_id == a.vendor_id && b.name == a.name && b.series == a.series && b.version == a.version && b.description == a.description && b.license_text == a.license_text && b.header_system_filename == a.header_system_filename && b.header_definitions_prefix == a.header_definitions_prefix && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && ok_u32(v, Ok(b.address_unit_bits)) } else if k == "width"@ { b.vendor == a.vendor && b.vendor_id == a.vendor_id && b.name == a.name && b.series == a.series && b.version == a.version && b.description == a.description && b.license_text == a.license_text && b.header_system_filename == a.header_system_filename && b.header_definitions_prefix == a.header_definitions_prefix && b.address_unit_bits == a.address_unit_bits && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && b.default_register_properties == a.default_register_properties && ok_u32(v, Ok(b.width)) } else { b.vendor == a.vendor && b.vendor_id == a.vendor_id && b.name == a.name && b.series == a.series && b.version == a.version && b.description == a.description && b.license_text == a.license_text && b.header_system_filename == a.header_system_filename && b.header_definitions_prefix == a.header_definitions_prefix && b.address_unit_bits == a.address_unit_bits && b.width == a.width && b.schema_version == a.schema_version && b.peripherals == a.peripherals && b.xmlns_xs == a.xmlns_xs && b.no_namespace_schema_location == a.no_namespace_schema_location && b.cpu == a.cpu && rp_set(a.default_register_properties, k, v, b.default_register_properties) }
}
#[verifier::external_body] pub fn str_into(s: &str) -> (r: String) ensures r@ == s@ { s.into() }
// DEFINITION of the operation Attr on a device (`step` is otherwise left open)
#[verifier::external_body] proof fn attr_step(a: Device, k: Seq<char>, v: Yaml, b: Device) requires attr_set(a, k, v, b) ensures step(a, Op::Attr(k, v), b) {}
#[verifier::external_body] pub fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> (r: PatchResult) ensures r is Ok ==> rp_set(*old(p), f@, *val, *final(p)) { unimplemented!() }
pub open spec fn f_mod() -> spec_fn((Yaml, Yaml)) -> Seq<Op> { |e: (Yaml, Yaml)| if kstr(e.0) == "cpu"@ { seq![Op::ModCpu(hv(e.1))] } else if kstr(e.0) == "_peripherals"@ { all(yh(Some(e.1)), f_modper()) } else if dev_attr(kstr(e.0)) { seq![Op::Attr(kstr(e.0), e.1)] } else { seq![Op::ModPer(kstr(e.0), hv(e.1))] } }
pub open spec fn p0(h: Hash) -> Seq<Op> { Seq::empty() }
pub open spec fn p1(h: Hash) -> Seq<Op> { p0(h) + all(svec(h, "_delete"@), f_del()) }
pub open spec fn p2(h: Hash) -> Seq<Op> { p1(h) + all(ents(h, "_copy"@), f_copy()) }
pub open spec fn p3(h: Hash) -> Seq<Op> { p2(h) + all(ents(h, "_modify"@), f_mod()) }
pub open spec fn p4(h: Hash) -> Seq<Op> { p3(h) + all(svec(h, "_clear_fields"@), f_clear()) }
pub open spec fn p5(h: Hash) -> Seq<Op> { p4(h) + all(ents(h, "_add"@), f_add()) }
pub open spec fn p6(h: Hash) -> Seq<Op> { p5(h) + all(ents(h, "_derive"@), f_der()) }
pub open spec fn p7(h: Hash) -> Seq<Op> { p6(h) + all(ents(h, "_rebase"@), f_reb()) }
pub open spec fn p8(h: Hash) -> Seq<Op> { p7(h) + all(hents(h), f_per()) }
proof fn dwords() ensures "vendorID"@ != "vendor"@, "name"@ != "vendor"@, "name"@ != "vendorID"@, "series"@ != "vendor"@, "series"@ != "vendorID"@, "series"@ != "name"@, "version"@ != "vendor"@, "version"@ != "vendorID"@, "version"@ != "name"@, "version"@ != "series"@, "description"@ != "vendor"@, "description"@ != "vendorID"@, "description"@ != "name"@, "description"@ != "series"@, "description"@ != "version"@, "licenseText"@ != "vendor"@, "licenseText"@ != "vendorID"@, "licenseText"@ != "name"@, "licenseText"@ != "series"@, "licenseText"@ != "version"@, "licenseText"@ != "description"@, "headerSystemFilename"@ != "vendor"@, "headerSystemFilename"@ != "vendorID"@, "headerSystemFilename"@ != "name"@, "headerSystemFilename"@ != "series"@, "headerSystemFilename"@ != "version"@, "headerSystemFilename"@ != "description"@, "headerSystemFilename"@ != "licenseText"@, "headerDefinitionsPrefix"@ != "vendor"@, "headerDefinitionsPrefix"@ != "vendorID"@, "headerDefinitionsPrefix"@ != "name"@, "headerDefinitionsPrefix"@ != "series"@, "headerDefinitionsPrefix"@ != "version"@, "headerDefinitionsPrefix"@ != "description"@, "headerDefinitionsPrefix"@ != "licenseText"@, "headerDefinitionsPrefix"@ != "headerSystemFilename"@, "addressUnitBits"@ != "vendor"@, "addressUnitBits"@ != "vendorID"@, "addressUnitBits"@ != "name"@, "addressUnitBits"@ != "series"@, "addressUnitBits"@ != "version"@, "addressUnitBits"@ != "description"@, "addressUnitBits"@ != "licenseText"@, "addressUnitBits"@ != "headerSystemFilename"@, "addressUnitBits"@ != "headerDefinitionsPrefix"@, "width"@ != "vendor"@, "width"@ != "vendorID"@, "width"@ != "name"@, "width"@ != "series"@, "width"@ != "version"@, "width"@ != "description"@, "width"@ != "licenseText"@, "width"@ != "headerSystemFilename"@, "width"@ != "headerDefinitionsPrefix"@, "width"@ != "addressUnitBits"@, "size"@ != "vendor"@, "size"@ != "vendorID"@, "size"@ != "name"@, "size"@ != "series"@, "size"@ != "version"@, "size"@ != "description"@, "size"@ != "licenseText"@, "size"@ != "headerSystemFilename"@, "size"@ != "headerDefinitionsPrefix"@, "size"@ != "addressUnitBits"@, "size"@ != "width"@, "access"@ != "vendor"@, "access"@ != "vendorID"@, "access"@ != "name"@, "access"@ != "series"@, "access"@ != "version"@, "access"@ != "description"@, "access"@ != "licenseText"@, "access"@ != "headerSystemFilename"@, "access"@ != "headerDefinitionsPrefix"@, "access"@ != "addressUnitBits"@, "access"@ != "width"@, "access"@ != "size"@, "protection"@ != "vendor"@, "protection"@ != "vendorID"@, "protection"@ != "name"@, "protection"@ != "series"@, "protection"@ != "version"@, "protection"@ != "description"@, "protection"@ != "licenseText"@, "protection"@ != "headerSystemFilename"@, "protection"@ != "headerDefinitionsPrefix"@, "protection"@ != "addressUnitBits"@, "protection"@ != "width"@, "protection"@ != "size"@, "protection"@ != "access"@, "resetValue"@ != "vendor"@, "resetValue"@ != "vendorID"@, "resetValue"@ != "name"@, "resetValue"@ != "series"@, "resetValue"@ != "version"@, "resetValue"@ != "description"@, "resetValue"@ != "licenseText"@, "resetValue"@ != "headerSystemFilename"@, "resetValue"@ != "headerDefinitionsPrefix"@, "resetValue"@ != "addressUnitBits"@, "resetValue"@ != "width"@, "resetValue"@ != "size"@, "resetValue"@ != "access"@, "resetValue"@ != "protection"@, "resetMask"@ != "vendor"@, "resetMask"@ != "vendorID"@, "resetMask"@ != "name"@, "resetMask"@ != "series"@, "resetMask"@ != "version"@, "resetMask"@ != "description"@, "resetMask"@ != "licenseText"@, "resetMask"@ != "headerSystemFilename"@, "resetMask"@ != "headerDefinitionsPrefix"@, "resetMask"@ != "addressUnitBits"@, "resetMask"@ != "width"@, "resetMask"@ != "size"@, "resetMask"@ != "access"@, "resetMask"@ != "protection"@, "resetMask"@ != "resetValue"@, "cpu"@ != "vendor"@, "cpu"@ != "vendorID"@, "cpu"@ != "name"@, "cpu"@ != "series"@, "cpu"@ != "version"@, "cpu"@ != "description"@, "cpu"@ != "licenseText"@, "cpu"@ != "headerSystemFilename"@, "cpu"@ != "headerDefinitionsPrefix"@, "cpu"@ != "addressUnitBits"@, "cpu"@ != "width"@, "cpu"@ != "size"@, "cpu"@ != "access"@, "cpu"@ != "protection"@, "cpu"@ != "resetValue"@, "cpu"@ != "resetMask"@, "_peripherals"@ != "vendor"@, "_peripherals"@ != "vendorID"@, "_peripherals"@ != "name"@, "_peripherals"@ != "series"@, "_peripherals"@ != "version"@, "_peripherals"@ != "description"@, "_peripherals"@ != "licenseText"@, "_peripherals"@ != "headerSystemFilename"@, "_peripherals"@ != "headerDefinitionsPrefix"@, "_peripherals"@ != "addressUnitBits"@, "_peripherals"@ != "width"@, "_peripherals"@ != "size"@, "_peripherals"@ != "access"@, "_peripherals"@ != "protection"@, "_peripherals"@ != "resetValue"@, "_peripherals"@ != "resetMask"@, "_peripherals"@ != "cpu"@
{
    reveal_strlit("vendor");
    reveal_strlit("vendorID");
    reveal_strlit("name");
    reveal_strlit("series");
    reveal_strlit("version");
    reveal_strlit("description");
    reveal_strlit("licenseText");
    reveal_strlit("headerSystemFilename");
    reveal_strlit("headerDefinitionsPrefix");
    reveal_strlit("addressUnitBits");
    reveal_strlit("width");
    reveal_strlit("size");
    reveal_strlit("access");
    reveal_strlit("protection");
    reveal_strlit("resetValue");
    reveal_strlit("resetMask");
    reveal_strlit("cpu");
    reveal_strlit("_peripherals");
    assert("vendorID"@ != "vendor"@) by { assert("vendorID"@.len() != "vendor"@.len()); }
    assert("name"@ != "vendor"@) by { assert("name"@.len() != "vendor"@.len()); }
    assert("name"@ != "vendorID"@) by { assert("name"@.len() != "vendorID"@.len()); }
    assert("series"@ != "vendor"@) by { assert("series"@[0] != "vendor"@[0]); }
    assert("series"@ != "vendorID"@) by { assert("series"@.len() != "vendorID"@.len()); }
    assert("series"@ != "name"@) by { assert("series"@.len() != "name"@.len()); }
    assert("version"@ != "vendor"@) by { assert("version"@.len() != "vendor"@.len()); }
    assert("version"@ != "vendorID"@) by { assert("version"@.len() != "vendorID"@.len()); }
    assert("version"@ != "name"@) by { assert("version"@.len() != "name"@.len()); }
    assert("version"@ != "series"@) by { assert("version"@.len() != "series"@.len()); }
    assert("description"@ != "vendor"@) by { assert("description"@.len() != "vendor"@.len()); }
    assert("description"@ != "vendorID"@) by { assert("description"@.len() != "vendorID"@.len()); }
    assert("description"@ != "name"@) by { assert("description"@.len() != "name"@.len()); }
    assert("description"@ != "series"@) by { assert("description"@.len() != "series"@.len()); }
    assert("description"@ != "version"@) by { assert("description"@.len() != "version"@.len()); }
    assert("licenseText"@ != "vendor"@) by { assert("licenseText"@.len() != "vendor"@.len()); }
    assert("licenseText"@ != "vendorID"@) by { assert("licenseText"@.len() != "vendorID"@.len()); }
    assert("licenseText"@ != "name"@) by { assert("licenseText"@.len() != "name"@.len()); }
    assert("licenseText"@ != "series"@) by { assert("licenseText"@.len() != "series"@.len()); }
    assert("licenseText"@ != "version"@) by { assert("licenseText"@.len() != "version"@.len()); }
    assert("licenseText"@ != "description"@) by { assert("licenseText"@[0] != "description"@[0]); }
    assert("headerSystemFilename"@ != "vendor"@) by { assert("headerSystemFilename"@.len() != "vendor"@.len()); }
    assert("headerSystemFilename"@ != "vendorID"@) by { assert("headerSystemFilename"@.len() != "vendorID"@.len()); }
    assert("headerSystemFilename"@ != "name"@) by { assert("headerSystemFilename"@.len() != "name"@.len()); }
    assert("headerSystemFilename"@ != "series"@) by { assert("headerSystemFilename"@.len() != "series"@.len()); }
    assert("headerSystemFilename"@ != "version"@) by { assert("headerSystemFilename"@.len() != "version"@.len()); }
    assert("headerSystemFilename"@ != "description"@) by { assert("headerSystemFilename"@.len() != "description"@.len()); }
    assert("headerSystemFilename"@ != "licenseText"@) by { assert("headerSystemFilename"@.len() != "licenseText"@.len()); }
    assert("headerDefinitionsPrefix"@ != "vendor"@) by { assert("headerDefinitionsPrefix"@.len() != "vendor"@.len()); }
    assert("headerDefinitionsPrefix"@ != "vendorID"@) by { assert("headerDefinitionsPrefix"@.len() != "vendorID"@.len()); }
    assert("headerDefinitionsPrefix"@ != "name"@) by { assert("headerDefinitionsPrefix"@.len() != "name"@.len()); }
    assert("headerDefinitionsPrefix"@ != "series"@) by { assert("headerDefinitionsPrefix"@.len() != "series"@.len()); }
    assert("headerDefinitionsPrefix"@ != "version"@) by { assert("headerDefinitionsPrefix"@.len() != "version"@.len()); }
    assert("headerDefinitionsPrefix"@ != "description"@) by { assert("headerDefinitionsPrefix"@.len() != "description"@.len()); }
    assert("headerDefinitionsPrefix"@ != "licenseText"@) by { assert("headerDefinitionsPrefix"@.len() != "licenseText"@.len()); }
    assert("headerDefinitionsPrefix"@ != "headerSystemFilename"@) by { assert("headerDefinitionsPrefix"@.len() != "headerSystemFilename"@.len()); }
    assert("addressUnitBits"@ != "vendor"@) by { assert("addressUnitBits"@.len() != "vendor"@.len()); }
    assert("addressUnitBits"@ != "vendorID"@) by { assert("addressUnitBits"@.len() != "vendorID"@.len()); }
    assert("addressUnitBits"@ != "name"@) by { assert("addressUnitBits"@.len() != "name"@.len()); }
    assert("addressUnitBits"@ != "series"@) by { assert("addressUnitBits"@.len() != "series"@.len()); }
    assert("addressUnitBits"@ != "version"@) by { assert("addressUnitBits"@.len() != "version"@.len()); }
    assert("addressUnitBits"@ != "description"@) by { assert("addressUnitBits"@.len() != "description"@.len()); }
    assert("addressUnitBits"@ != "licenseText"@) by { assert("addressUnitBits"@.len() != "licenseText"@.len()); }
    assert("addressUnitBits"@ != "headerSystemFilename"@) by { assert("addressUnitBits"@.len() != "headerSystemFilename"@.len()); }
    assert("addressUnitBits"@ != "headerDefinitionsPrefix"@) by { assert("addressUnitBits"@.len() != "headerDefinitionsPrefix"@.len()); }
    assert("width"@ != "vendor"@) by { assert("width"@.len() != "vendor"@.len()); }
    assert("width"@ != "vendorID"@) by { assert("width"@.len() != "vendorID"@.len()); }
    assert("width"@ != "name"@) by { assert("width"@.len() != "name"@.len()); }
    assert("width"@ != "series"@) by { assert("width"@.len() != "series"@.len()); }
    assert("width"@ != "version"@) by { assert("width"@.len() != "version"@.len()); }
    assert("width"@ != "description"@) by { assert("width"@.len() != "description"@.len()); }
    assert("width"@ != "licenseText"@) by { assert("width"@.len() != "licenseText"@.len()); }
    assert("width"@ != "headerSystemFilename"@) by { assert("width"@.len() != "headerSystemFilename"@.len()); }
    assert("width"@ != "headerDefinitionsPrefix"@) by { assert("width"@.len() != "headerDefinitionsPrefix"@.len()); }
    assert("width"@ != "addressUnitBits"@) by { assert("width"@.len() != "addressUnitBits"@.len()); }
    assert("size"@ != "vendor"@) by { assert("size"@.len() != "vendor"@.len()); }
    assert("size"@ != "vendorID"@) by { assert("size"@.len() != "vendorID"@.len()); }
    assert("size"@ != "name"@) by { assert("size"@[0] != "name"@[0]); }
    assert("size"@ != "series"@) by { assert("size"@.len() != "series"@.len()); }
    assert("size"@ != "version"@) by { assert("size"@.len() != "version"@.len()); }
    assert("size"@ != "description"@) by { assert("size"@.len() != "description"@.len()); }
    assert("size"@ != "licenseText"@) by { assert("size"@.len() != "licenseText"@.len()); }
    assert("size"@ != "headerSystemFilename"@) by { assert("size"@.len() != "headerSystemFilename"@.len()); }
    assert("size"@ != "headerDefinitionsPrefix"@) by { assert("size"@.len() != "headerDefinitionsPrefix"@.len()); }
    assert("size"@ != "addressUnitBits"@) by { assert("size"@.len() != "addressUnitBits"@.len()); }
    assert("size"@ != "width"@) by { assert("size"@.len() != "width"@.len()); }
    assert("access"@ != "vendor"@) by { assert("access"@[0] != "vendor"@[0]); }
    assert("access"@ != "vendorID"@) by { assert("access"@.len() != "vendorID"@.len()); }
    assert("access"@ != "name"@) by { assert("access"@.len() != "name"@.len()); }
    assert("access"@ != "series"@) by { assert("access"@[0] != "series"@[0]); }
    assert("access"@ != "version"@) by { assert("access"@.len() != "version"@.len()); }
    assert("access"@ != "description"@) by { assert("access"@.len() != "description"@.len()); }
    assert("access"@ != "licenseText"@) by { assert("access"@.len() != "licenseText"@.len()); }
    assert("access"@ != "headerSystemFilename"@) by { assert("access"@.len() != "headerSystemFilename"@.len()); }
    assert("access"@ != "headerDefinitionsPrefix"@) by { assert("access"@.len() != "headerDefinitionsPrefix"@.len()); }
    assert("access"@ != "addressUnitBits"@) by { assert("access"@.len() != "addressUnitBits"@.len()); }
    assert("access"@ != "width"@) by { assert("access"@.len() != "width"@.len()); }
    assert("access"@ != "size"@) by { assert("access"@.len() != "size"@.len()); }
    assert("protection"@ != "vendor"@) by { assert("protection"@.len() != "vendor"@.len()); }
    assert("protection"@ != "vendorID"@) by { assert("protection"@.len() != "vendorID"@.len()); }
    assert("protection"@ != "name"@) by { assert("protection"@.len() != "name"@.len()); }
    assert("protection"@ != "series"@) by { assert("protection"@.len() != "series"@.len()); }
    assert("protection"@ != "version"@) by { assert("protection"@.len() != "version"@.len()); }
    assert("protection"@ != "description"@) by { assert("protection"@.len() != "description"@.len()); }
    assert("protection"@ != "licenseText"@) by { assert("protection"@.len() != "licenseText"@.len()); }
    assert("protection"@ != "headerSystemFilename"@) by { assert("protection"@.len() != "headerSystemFilename"@.len()); }
    assert("protection"@ != "headerDefinitionsPrefix"@) by { assert("protection"@.len() != "headerDefinitionsPrefix"@.len()); }
    assert("protection"@ != "addressUnitBits"@) by { assert("protection"@.len() != "addressUnitBits"@.len()); }
    assert("protection"@ != "width"@) by { assert("protection"@.len() != "width"@.len()); }
    assert("protection"@ != "size"@) by { assert("protection"@.len() != "size"@.len()); }
    assert("protection"@ != "access"@) by { assert("protection"@.len() != "access"@.len()); }
    assert("resetValue"@ != "vendor"@) by { assert("resetValue"@.len() != "vendor"@.len()); }
    assert("resetValue"@ != "vendorID"@) by { assert("resetValue"@.len() != "vendorID"@.len()); }
    assert("resetValue"@ != "name"@) by { assert("resetValue"@.len() != "name"@.len()); }
    assert("resetValue"@ != "series"@) by { assert("resetValue"@.len() != "series"@.len()); }
    assert("resetValue"@ != "version"@) by { assert("resetValue"@.len() != "version"@.len()); }
    assert("resetValue"@ != "description"@) by { assert("resetValue"@.len() != "description"@.len()); }
    assert("resetValue"@ != "licenseText"@) by { assert("resetValue"@.len() != "licenseText"@.len()); }
    assert("resetValue"@ != "headerSystemFilename"@) by { assert("resetValue"@.len() != "headerSystemFilename"@.len()); }
    assert("resetValue"@ != "headerDefinitionsPrefix"@) by { assert("resetValue"@.len() != "headerDefinitionsPrefix"@.len()); }
    assert("resetValue"@ != "addressUnitBits"@) by { assert("resetValue"@.len() != "addressUnitBits"@.len()); }
    assert("resetValue"@ != "width"@) by { assert("resetValue"@.len() != "width"@.len()); }
    assert("resetValue"@ != "size"@) by { assert("resetValue"@.len() != "size"@.len()); }
    assert("resetValue"@ != "access"@) by { assert("resetValue"@.len() != "access"@.len()); }
    assert("resetValue"@ != "protection"@) by { assert("resetValue"@[0] != "protection"@[0]); }
    assert("resetMask"@ != "vendor"@) by { assert("resetMask"@.len() != "vendor"@.len()); }
    assert("resetMask"@ != "vendorID"@) by { assert("resetMask"@.len() != "vendorID"@.len()); }
    assert("resetMask"@ != "name"@) by { assert("resetMask"@.len() != "name"@.len()); }
    assert("resetMask"@ != "series"@) by { assert("resetMask"@.len() != "series"@.len()); }
    assert("resetMask"@ != "version"@) by { assert("resetMask"@.len() != "version"@.len()); }
    assert("resetMask"@ != "description"@) by { assert("resetMask"@.len() != "description"@.len()); }
    assert("resetMask"@ != "licenseText"@) by { assert("resetMask"@.len() != "licenseText"@.len()); }
    assert("resetMask"@ != "headerSystemFilename"@) by { assert("resetMask"@.len() != "headerSystemFilename"@.len()); }
    assert("resetMask"@ != "headerDefinitionsPrefix"@) by { assert("resetMask"@.len() != "headerDefinitionsPrefix"@.len()); }
    assert("resetMask"@ != "addressUnitBits"@) by { assert("resetMask"@.len() != "addressUnitBits"@.len()); }
    assert("resetMask"@ != "width"@) by { assert("resetMask"@.len() != "width"@.len()); }
    assert("resetMask"@ != "size"@) by { assert("resetMask"@.len() != "size"@.len()); }
    assert("resetMask"@ != "access"@) by { assert("resetMask"@.len() != "access"@.len()); }
    assert("resetMask"@ != "protection"@) by { assert("resetMask"@.len() != "protection"@.len()); }
    assert("resetMask"@ != "resetValue"@) by { assert("resetMask"@.len() != "resetValue"@.len()); }
    assert("cpu"@ != "vendor"@) by { assert("cpu"@.len() != "vendor"@.len()); }
    assert("cpu"@ != "vendorID"@) by { assert("cpu"@.len() != "vendorID"@.len()); }
    assert("cpu"@ != "name"@) by { assert("cpu"@.len() != "name"@.len()); }
    assert("cpu"@ != "series"@) by { assert("cpu"@.len() != "series"@.len()); }
    assert("cpu"@ != "version"@) by { assert("cpu"@.len() != "version"@.len()); }
    assert("cpu"@ != "description"@) by { assert("cpu"@.len() != "description"@.len()); }
    assert("cpu"@ != "licenseText"@) by { assert("cpu"@.len() != "licenseText"@.len()); }
    assert("cpu"@ != "headerSystemFilename"@) by { assert("cpu"@.len() != "headerSystemFilename"@.len()); }
    assert("cpu"@ != "headerDefinitionsPrefix"@) by { assert("cpu"@.len() != "headerDefinitionsPrefix"@.len()); }
    assert("cpu"@ != "addressUnitBits"@) by { assert("cpu"@.len() != "addressUnitBits"@.len()); }
    assert("cpu"@ != "width"@) by { assert("cpu"@.len() != "width"@.len()); }
    assert("cpu"@ != "size"@) by { assert("cpu"@.len() != "size"@.len()); }
    assert("cpu"@ != "access"@) by { assert("cpu"@.len() != "access"@.len()); }
    assert("cpu"@ != "protection"@) by { assert("cpu"@.len() != "protection"@.len()); }
    assert("cpu"@ != "resetValue"@) by { assert("cpu"@.len() != "resetValue"@.len()); }
    assert("cpu"@ != "resetMask"@) by { assert("cpu"@.len() != "resetMask"@.len()); }
    assert("_peripherals"@ != "vendor"@) by { assert("_peripherals"@.len() != "vendor"@.len()); }
    assert("_peripherals"@ != "vendorID"@) by { assert("_peripherals"@.len() != "vendorID"@.len()); }
    assert("_peripherals"@ != "name"@) by { assert("_peripherals"@.len() != "name"@.len()); }
    assert("_peripherals"@ != "series"@) by { assert("_peripherals"@.len() != "series"@.len()); }
    assert("_peripherals"@ != "version"@) by { assert("_peripherals"@.len() != "version"@.len()); }
    assert("_peripherals"@ != "description"@) by { assert("_peripherals"@.len() != "description"@.len()); }
    assert("_peripherals"@ != "licenseText"@) by { assert("_peripherals"@.len() != "licenseText"@.len()); }
    assert("_peripherals"@ != "headerSystemFilename"@) by { assert("_peripherals"@.len() != "headerSystemFilename"@.len()); }
    assert("_peripherals"@ != "headerDefinitionsPrefix"@) by { assert("_peripherals"@.len() != "headerDefinitionsPrefix"@.len()); }
    assert("_peripherals"@ != "addressUnitBits"@) by { assert("_peripherals"@.len() != "addressUnitBits"@.len()); }
    assert("_peripherals"@ != "width"@) by { assert("_peripherals"@.len() != "width"@.len()); }
    assert("_peripherals"@ != "size"@) by { assert("_peripherals"@.len() != "size"@.len()); }
    assert("_peripherals"@ != "access"@) by { assert("_peripherals"@.len() != "access"@.len()); }
    assert("_peripherals"@ != "protection"@) by { assert("_peripherals"@.len() != "protection"@.len()); }
    assert("_peripherals"@ != "resetValue"@) by { assert("_peripherals"@.len() != "resetValue"@.len()); }
    assert("_peripherals"@ != "resetMask"@) by { assert("_peripherals"@.len() != "resetMask"@.len()); }
    assert("_peripherals"@ != "cpu"@) by { assert("_peripherals"@.len() != "cpu"@.len()); }
}
//@fn src/patch/device.rs | DeviceExt for Device | process
//@self Device
//@sub Path::new(device.get_str("_path")?.unwrap_or(".")) =>> device.get_str("_path")?.unwrap_or(".")
//@attr #[verifier::rlimit(100)]
//@sub val.str()?.into() =>> str_into(val.str()?)
//@sub Self::KEYWORDS.contains(&periphspec) =>> kw_d_has(periphspec)
//@spec
    ensures r is Ok ==> run(*old(self_), p8(*device), *final(self_)),
//@start
    broadcast use axiom_str_ext;
//@before-loop 1
    proof { lemma_nil(p0(*device), svec(*device, "_delete"@), f_del()); }
//@loop 1 it1 hoistv
    invariant it1.seq() == g1_, eqs(g1_, svec(*device, "_delete"@)), run(*old(self_), p0(*device) + flat(svec(*device, "_delete"@), f_del(), it1.index()), *self_), 
//@loop-start 1
    broadcast use axiom_str_ext; 
    let ghost e1_ = svec(*device, "_delete"@)[it1.index() as int]; let ghost p1_ = *self_; let ghost a1_ = p0(*device) + flat(svec(*device, "_delete"@), f_del(), it1.index());
//@loop-end 1
    proof { adv(*old(self_), p0(*device), svec(*device, "_delete"@), f_del(), it1.index() as int, p1_, *self_); }
//@before-loop 2
    proof { lemma_nil(p1(*device), ents(*device, "_copy"@), f_copy()); }
//@loop 2 it2 hoistv
    invariant it2.seq() == g2_, eqe(g2_, ents(*device, "_copy"@)), run(*old(self_), p1(*device) + flat(ents(*device, "_copy"@), f_copy(), it2.index()), *self_), 
//@loop-start 2
    broadcast use axiom_str_ext; 
    let ghost e2_ = ents(*device, "_copy"@)[it2.index() as int]; let ghost p2_ = *self_; let ghost a2_ = p1(*device) + flat(ents(*device, "_copy"@), f_copy(), it2.index());
//@loop-end 2
    proof { adv(*old(self_), p1(*device), ents(*device, "_copy"@), f_copy(), it2.index() as int, p2_, *self_); }
//@before-loop 3
    proof { lemma_nil(p2(*device), ents(*device, "_modify"@), f_mod()); }
//@loop 3 it3 hoistv
    invariant it3.seq() == g3_, eqe(g3_, ents(*device, "_modify"@)), run(*old(self_), p2(*device) + flat(ents(*device, "_modify"@), f_mod(), it3.index()), *self_), 
//@loop-start 3
    broadcast use axiom_str_ext; proof { axiom_string_eq(); dwords(); }
    let ghost e3_ = ents(*device, "_modify"@)[it3.index() as int]; let ghost p3_ = *self_; let ghost a3_ = p2(*device) + flat(ents(*device, "_modify"@), f_mod(), it3.index());
//@loop-end 3
    proof { if dev_attr(kstr(e3_.0)) { attr_step(p3_, kstr(e3_.0), e3_.1, *self_); } adv(*old(self_), p2(*device), ents(*device, "_modify"@), f_mod(), it3.index() as int, p3_, *self_); }
//@before-loop 4
    let ghost hh4_ = *val; proof { lemma_nil(a3_, yh(Some(hh4_)), f_modper()); }
//@loop 4 it4 hoistv
    invariant it4.seq() == g4_, eqe(g4_, yh(Some(hh4_))), run(*old(self_), a3_ + flat(yh(Some(hh4_)), f_modper(), it4.index()), *self_), 
//@loop-start 4
    broadcast use axiom_str_ext; 
    let ghost e4_ = yh(Some(hh4_))[it4.index() as int]; let ghost p4_ = *self_; let ghost a4_ = a3_ + flat(yh(Some(hh4_)), f_modper(), it4.index());
//@loop-end 4
    proof { adv(*old(self_), a3_, yh(Some(hh4_)), f_modper(), it4.index() as int, p4_, *self_); }
//@after-loop 4
    proof { assert(f_mod()(e3_) == all(yh(Some(hh4_)), f_modper())); assert(run(*old(self_), a3_ + f_mod()(e3_), *self_)); }
//@before-loop 5
    proof { lemma_nil(p3(*device), svec(*device, "_clear_fields"@), f_clear()); }
//@loop 5 it5 hoistv
    invariant it5.seq() == g5_, eqs(g5_, svec(*device, "_clear_fields"@)), run(*old(self_), p3(*device) + flat(svec(*device, "_clear_fields"@), f_clear(), it5.index()), *self_), 
//@loop-start 5
    broadcast use axiom_str_ext; 
    let ghost e5_ = svec(*device, "_clear_fields"@)[it5.index() as int]; let ghost p5_ = *self_; let ghost a5_ = p3(*device) + flat(svec(*device, "_clear_fields"@), f_clear(), it5.index());
//@loop-end 5
    proof { adv(*old(self_), p3(*device), svec(*device, "_clear_fields"@), f_clear(), it5.index() as int, p5_, *self_); }
//@before-loop 6
    proof { lemma_nil(p4(*device), ents(*device, "_add"@), f_add()); }
//@loop 6 it6 hoistv
    invariant it6.seq() == g6_, eqe(g6_, ents(*device, "_add"@)), run(*old(self_), p4(*device) + flat(ents(*device, "_add"@), f_add(), it6.index()), *self_), 
//@loop-start 6
    broadcast use axiom_str_ext; 
    let ghost e6_ = ents(*device, "_add"@)[it6.index() as int]; let ghost p6_ = *self_; let ghost a6_ = p4(*device) + flat(ents(*device, "_add"@), f_add(), it6.index());
//@loop-end 6
    proof { adv(*old(self_), p4(*device), ents(*device, "_add"@), f_add(), it6.index() as int, p6_, *self_); }
//@before-loop 7
    proof { lemma_nil(p5(*device), ents(*device, "_derive"@), f_der()); }
//@loop 7 it7 hoistv
    invariant it7.seq() == g7_, eqe(g7_, ents(*device, "_derive"@)), run(*old(self_), p5(*device) + flat(ents(*device, "_derive"@), f_der(), it7.index()), *self_), 
//@loop-start 7
    broadcast use axiom_str_ext; 
    let ghost e7_ = ents(*device, "_derive"@)[it7.index() as int]; let ghost p7_ = *self_; let ghost a7_ = p5(*device) + flat(ents(*device, "_derive"@), f_der(), it7.index());
//@loop-end 7
    proof { adv(*old(self_), p5(*device), ents(*device, "_derive"@), f_der(), it7.index() as int, p7_, *self_); }
//@before-loop 8
    proof { lemma_nil(p6(*device), ents(*device, "_rebase"@), f_reb()); }
//@loop 8 it8 hoistv
    invariant it8.seq() == g8_, eqe(g8_, ents(*device, "_rebase"@)), run(*old(self_), p6(*device) + flat(ents(*device, "_rebase"@), f_reb(), it8.index()), *self_), 
//@loop-start 8
    broadcast use axiom_str_ext; 
    let ghost e8_ = ents(*device, "_rebase"@)[it8.index() as int]; let ghost p8_ = *self_; let ghost a8_ = p6(*device) + flat(ents(*device, "_rebase"@), f_reb(), it8.index());
//@loop-end 8
    proof { adv(*old(self_), p6(*device), ents(*device, "_rebase"@), f_reb(), it8.index() as int, p8_, *self_); }
//@before-loop 9
    proof { lemma_nil(p7(*device), hents(*device), f_per()); }
//@loop 9 it9 hoistv
    invariant it9.seq() == g9_, eqe(g9_, hents(*device)), run(*old(self_), p7(*device) + flat(hents(*device), f_per(), it9.index()), *self_), 
//@loop-start 9
    broadcast use axiom_str_ext; 
    let ghost e9_ = hents(*device)[it9.index() as int]; let ghost p9_ = *self_; let ghost a9_ = p7(*device) + flat(hents(*device), f_per(), it9.index());
//@loop-end 9
    proof { adv(*old(self_), p7(*device), hents(*device), f_per(), it9.index() as int, p9_, *self_); }
//@end
}
fn main(){}
