// Frame predicates: every field except the named one(s) is unchanged.
verus! {
pub open spec fn dev_only_vendor(a: Device, b: Device) -> bool {
    a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_vendor_id(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_name(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_series(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_version(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_description(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_license_text(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_cpu(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_header_system_filename(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_header_definitions_prefix(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_address_unit_bits(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_width(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_default_register_properties(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_peripherals(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_xmlns_xs(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.no_namespace_schema_location == b.no_namespace_schema_location && a.schema_version == b.schema_version
}
pub open spec fn dev_only_no_namespace_schema_location(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.schema_version == b.schema_version
}
pub open spec fn dev_only_schema_version(a: Device, b: Device) -> bool {
    a.vendor == b.vendor && a.vendor_id == b.vendor_id && a.name == b.name && a.series == b.series && a.version == b.version && a.description == b.description && a.license_text == b.license_text && a.cpu == b.cpu && a.header_system_filename == b.header_system_filename && a.header_definitions_prefix == b.header_definitions_prefix && a.address_unit_bits == b.address_unit_bits && a.width == b.width && a.default_register_properties == b.default_register_properties && a.peripherals == b.peripherals && a.xmlns_xs == b.xmlns_xs && a.no_namespace_schema_location == b.no_namespace_schema_location
}
pub open spec fn per_only_name(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_display_name(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_version(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_description(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_alternate_peripheral(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_group_name(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_prepend_to_name(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_append_to_name(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_header_struct_name(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_base_address(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_default_register_properties(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_address_block(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.interrupt == b.interrupt && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_interrupt(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.registers == b.registers && a.derived_from == b.derived_from
}
pub open spec fn per_only_registers(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.derived_from == b.derived_from
}
pub open spec fn per_only_derived_from(a: PeripheralInfo, b: PeripheralInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.version == b.version && a.description == b.description && a.alternate_peripheral == b.alternate_peripheral && a.group_name == b.group_name && a.prepend_to_name == b.prepend_to_name && a.append_to_name == b.append_to_name && a.header_struct_name == b.header_struct_name && a.base_address == b.base_address && a.default_register_properties == b.default_register_properties && a.address_block == b.address_block && a.interrupt == b.interrupt && a.registers == b.registers
}
pub open spec fn cl_only_name(a: ClusterInfo, b: ClusterInfo) -> bool {
    a.description == b.description && a.alternate_cluster == b.alternate_cluster && a.header_struct_name == b.header_struct_name && a.address_offset == b.address_offset && a.default_register_properties == b.default_register_properties && a.children == b.children && a.derived_from == b.derived_from
}
pub open spec fn cl_only_description(a: ClusterInfo, b: ClusterInfo) -> bool {
    a.name == b.name && a.alternate_cluster == b.alternate_cluster && a.header_struct_name == b.header_struct_name && a.address_offset == b.address_offset && a.default_register_properties == b.default_register_properties && a.children == b.children && a.derived_from == b.derived_from
}
pub open spec fn cl_only_alternate_cluster(a: ClusterInfo, b: ClusterInfo) -> bool {
    a.name == b.name && a.description == b.description && a.header_struct_name == b.header_struct_name && a.address_offset == b.address_offset && a.default_register_properties == b.default_register_properties && a.children == b.children && a.derived_from == b.derived_from
}
pub open spec fn cl_only_header_struct_name(a: ClusterInfo, b: ClusterInfo) -> bool {
    a.name == b.name && a.description == b.description && a.alternate_cluster == b.alternate_cluster && a.address_offset == b.address_offset && a.default_register_properties == b.default_register_properties && a.children == b.children && a.derived_from == b.derived_from
}
pub open spec fn cl_only_address_offset(a: ClusterInfo, b: ClusterInfo) -> bool {
    a.name == b.name && a.description == b.description && a.alternate_cluster == b.alternate_cluster && a.header_struct_name == b.header_struct_name && a.default_register_properties == b.default_register_properties && a.children == b.children && a.derived_from == b.derived_from
}
pub open spec fn cl_only_default_register_properties(a: ClusterInfo, b: ClusterInfo) -> bool {
    a.name == b.name && a.description == b.description && a.alternate_cluster == b.alternate_cluster && a.header_struct_name == b.header_struct_name && a.address_offset == b.address_offset && a.children == b.children && a.derived_from == b.derived_from
}
pub open spec fn cl_only_children(a: ClusterInfo, b: ClusterInfo) -> bool {
    a.name == b.name && a.description == b.description && a.alternate_cluster == b.alternate_cluster && a.header_struct_name == b.header_struct_name && a.address_offset == b.address_offset && a.default_register_properties == b.default_register_properties && a.derived_from == b.derived_from
}
pub open spec fn cl_only_derived_from(a: ClusterInfo, b: ClusterInfo) -> bool {
    a.name == b.name && a.description == b.description && a.alternate_cluster == b.alternate_cluster && a.header_struct_name == b.header_struct_name && a.address_offset == b.address_offset && a.default_register_properties == b.default_register_properties && a.children == b.children
}
pub open spec fn reg_only_name(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.display_name == b.display_name && a.description == b.description && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.properties == b.properties && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_display_name(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.description == b.description && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.properties == b.properties && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_description(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.properties == b.properties && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_alternate_group(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.properties == b.properties && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_alternate_register(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_group == b.alternate_group && a.address_offset == b.address_offset && a.properties == b.properties && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_address_offset(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.properties == b.properties && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_properties(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_datatype(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.properties == b.properties && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_modified_write_values(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.properties == b.properties && a.datatype == b.datatype && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_write_constraint(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.properties == b.properties && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.read_action == b.read_action && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_read_action(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.properties == b.properties && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.fields == b.fields && a.derived_from == b.derived_from
}
pub open spec fn reg_only_fields(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.properties == b.properties && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.derived_from == b.derived_from
}
pub open spec fn reg_only_derived_from(a: RegisterInfo, b: RegisterInfo) -> bool {
    a.name == b.name && a.display_name == b.display_name && a.description == b.description && a.alternate_group == b.alternate_group && a.alternate_register == b.alternate_register && a.address_offset == b.address_offset && a.properties == b.properties && a.datatype == b.datatype && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.fields == b.fields
}
pub open spec fn fld_only_name(a: FieldInfo, b: FieldInfo) -> bool {
    a.description == b.description && a.bit_range == b.bit_range && a.access == b.access && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.enumerated_values == b.enumerated_values && a.derived_from == b.derived_from
}
pub open spec fn fld_only_description(a: FieldInfo, b: FieldInfo) -> bool {
    a.name == b.name && a.bit_range == b.bit_range && a.access == b.access && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.enumerated_values == b.enumerated_values && a.derived_from == b.derived_from
}
pub open spec fn fld_only_bit_range(a: FieldInfo, b: FieldInfo) -> bool {
    a.name == b.name && a.description == b.description && a.access == b.access && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.enumerated_values == b.enumerated_values && a.derived_from == b.derived_from
}
pub open spec fn fld_only_access(a: FieldInfo, b: FieldInfo) -> bool {
    a.name == b.name && a.description == b.description && a.bit_range == b.bit_range && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.enumerated_values == b.enumerated_values && a.derived_from == b.derived_from
}
pub open spec fn fld_only_modified_write_values(a: FieldInfo, b: FieldInfo) -> bool {
    a.name == b.name && a.description == b.description && a.bit_range == b.bit_range && a.access == b.access && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.enumerated_values == b.enumerated_values && a.derived_from == b.derived_from
}
pub open spec fn fld_only_write_constraint(a: FieldInfo, b: FieldInfo) -> bool {
    a.name == b.name && a.description == b.description && a.bit_range == b.bit_range && a.access == b.access && a.modified_write_values == b.modified_write_values && a.read_action == b.read_action && a.enumerated_values == b.enumerated_values && a.derived_from == b.derived_from
}
pub open spec fn fld_only_read_action(a: FieldInfo, b: FieldInfo) -> bool {
    a.name == b.name && a.description == b.description && a.bit_range == b.bit_range && a.access == b.access && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.enumerated_values == b.enumerated_values && a.derived_from == b.derived_from
}
pub open spec fn fld_only_enumerated_values(a: FieldInfo, b: FieldInfo) -> bool {
    a.name == b.name && a.description == b.description && a.bit_range == b.bit_range && a.access == b.access && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.derived_from == b.derived_from
}
pub open spec fn fld_only_derived_from(a: FieldInfo, b: FieldInfo) -> bool {
    a.name == b.name && a.description == b.description && a.bit_range == b.bit_range && a.access == b.access && a.modified_write_values == b.modified_write_values && a.write_constraint == b.write_constraint && a.read_action == b.read_action && a.enumerated_values == b.enumerated_values
}
}
