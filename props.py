"""What each check consists of."""
PROPS = {
    "C01": dict(units=["u_match", "u_iter"], level="proof",
                note="newglob, matchname, matchsubspec, the matching iterator and every iterator of registers, clusters, fields and interrupts built on it proved for all inputs; the glob engine itself is assumed; reading of the pattern keys covered by the bounded harness"),
    "C02": dict(units=["u_delete"], level="proof",
                note="delete_* functions proved for all inputs against filter specifications; dispatch from the YAML sections covered by the bounded harness"),
    "C03": dict(units=["u_addpos", "u_add", "u_make"], level="proof",
                note="add_peripheral/register/cluster/field/interrupt, the insertion position and the element builders (nested elements and address blocks included) proved for all inputs; dispatch and the documents they are read from covered by the bounded harness"),
    "C04": dict(units=["u_modify", "u_modp", "u_make"], level="proof",
                note="modify_peripheral, modify_cpu, modify_register, modify_cluster, modify_child, modify_interrupt, modify_field, the dimension handling and the element builders proved for all inputs; that a builder given to modify_from sets exactly the attributes it holds is assumed of svd-rs; dispatch is C29, the device's own attributes covered by the bounded harness"),
    "C05": dict(units=["u_derivep", "u_deriver", "u_derivef"], level="proof",
                note="derive_peripheral, derive_register (of peripherals and clusters), derive_field and the paths they write proved for all inputs; whether a new name is a legal identifier is left open; dispatch covered by the bounded harness"),
    "C06": dict(units=["u_rebase"], level="proof",
                note="rebase_peripheral proved for all devices: content moves to the new peripheral, the old one derives from it, every derivedFrom naming the old one is re-pointed; dispatch covered by the bounded harness"),
    "C07": dict(units=["u_copyp", "u_copyr"], level="proof",
                note="copy_peripheral and copy_register (of peripherals and clusters) proved for all inputs; the other file is the device its parser returns; dispatch covered by the bounded harness"),
    "C08": dict(units=["u_merge"], level="proof",
                note="merge_fields proved for all registers and selectors whose selected widths sum within 32 bits; the section dispatch is C29, arrays of lists covered by the bounded harness"),
    "C09": dict(units=["u_split"], level="proof",
                note="split_fields proved for all registers and selectors whose selected field ends within 32 bits; dispatch covered by the bounded harness"),
    "C13": dict(units=["u_names"], level="proof",
                note="strip/strip_end/prefix/suffix of registers, peripherals and clusters proved for all inputs without wildcards in the stripped text; dispatch covered by the bounded harness"),
    "C14": dict(units=["u_ev", "u_enum", "u_pfield"], level="proof",
                note="make_ev_name, make_ev_array, make_derived_enumerated_values, set_enum, process_field_enum (which fields get which list, the carrier, the references, the order) and process_field (which words of a description stand for which usage and tag) proved for all inputs; assumed: a phf table yields each entry once; that a section reaches process_field is C29"),
    "C15": dict(units=["u_usage"], level="proof",
                note="check_usage, make_usage and the two tag setters proved for all inputs; that a description reaches them with the right usage is proved in C14 (process_field)"),
    "C16": dict(units=["u_range", "u_pfield"], level="proof",
                note="get_write_constraint, process_field_range and process_field (two-number lists become ranges, other lists are refused) proved for all inputs; that a section reaches process_field is C29"),
    "C17": dict(units=["u_clear"], level="proof",
                note="clear_field and clear_fields of registers, blocks and devices proved for all inputs; dispatch covered by the bounded harness"),
    "C18": dict(units=["u_dict", "u_incl"], level="proof",
                note="update_dict proved for all pairs of dictionaries, yaml_includes for all include trees (order, nesting, merging once per dictionary, relative to the naming file, directive removed); the yaml text behind them and abspath are assumed, whole files covered by the bounded harness"),
    "C19": dict(units=["u_incl", "u_deps"], level="proof",
                note="makedeps, write_file and yaml_includes proved: what is read is exactly what the written line lists, in order; the file the text of a relative path stands for (abspath) is assumed; whole include trees on disk covered by the bounded harness"),
    "C20": dict(units=["u_yaml"], level="proof",
                note="parse_i64, parse_bool and every typed accessor proved for all inputs; the attributes they feed covered by the bounded harness"),
    "C21": dict(units=["u_select", "u_iter"], level="proof",
                note="process_peripheral, process_child/register/cluster and modify_child/register/cluster proved for all inputs to fail when nothing is selected; fields, enumerations and collections covered by the bounded harness"),
    "C22": dict(units=["u_file"], level="proof",
                note="process_file and convert proved, over an explicit model of the effects on files, to touch only the output file, only after every step that can fail on the input has succeeded, by one creation followed by one write of the complete text; load_patch included; that includes are read without writing is proved in C18"),
    "C23": dict(units=["u_procd", "u_procp", "u_procc", "u_procr"], level="proof",
                note="the four section dispatchers proved, for every patch section, to perform exactly the operations the section stands for in the documented order, and to leave derived registers and the registers of derived peripherals alone; what each operation does is the subject of the other checks"),
    "C24": dict(units=["u_gaps"], level="proof",
                note="the ordered interrupt list, the gaps between interrupts and the interrupts of each peripheral proved for all devices; the printed text covered by the bounded harness"),
    "C10": dict(units=["u_coll", "u_collf"], level="proof",
                note="collect_in_array, collect_fields_in_array, check_offsets and get_bitmask proved for all blocks and registers: what remains, where the array stands, its dimension, increment, indices, name and contents, and that unequal distances or bits or names that do not fit are refused; assumed: the regex that finds the pattern's place (spec_ind), bit ranges within 64 bits, svd-rs builders; success on collectable input and the surrounding patch by the bounded harness"),
    "C11": dict(units=["u_clu"], level="proof",
                note="collect_in_cluster, check_offsets and get_bitmask proved for all blocks and descriptions: which children remain, where the cluster stands, its name, offset, dimension, increment and indices, each member with its offset, name and place, and that members of other number, distance, indices, bits or beyond the increment are refused; assumed: spec_ind and the sub-pattern found by matchsubspec (regex), what the cluster's own keywords do before and after (pre_process, post_process: their own contracts are C29), bit ranges within 64 bits, svd-rs builders; the bounded harness covers the surrounding patch"),
    "C12": dict(units=["u_expand"], level="proof",
                note="expand_array, expand_cluster, the selection of cluster arrays and the name prefixes proved for all blocks: what succeeds, which children stay, and every added child with its offset, name and unchanged contents; assumed: the elements of a register array (svd-rs), addresses fitting in 32 bits, a selector marked optional at most once; the bounded harness covers the surrounding patch"),
    "C25": dict(units=["u_mmap"], level="proof",
                note="to_text and everything it prints proved for all devices whose addresses fit in 64 bits: one line per element with its absolute address, over assumed contracts for array expansion (svd-rs) and text formatting (std); reading the file covered by the bounded harness"),
    "C29": dict(units=["u_procd", "u_procp", "u_procc", "u_procr"], level="proof",
                note="the four section dispatchers proved, for every patch section, to perform the operations the section stands for one after another in the documented order, each exactly once, stopping at the first failure; the bounded harness compares whole patches with one-operation-at-a-time application"),
}
NOT_APPLICABLE = {
    "C26": "the page content is produced by liquid templates from dynamically typed objects with floating-point percentages and regexes; neither the template engine nor the floats have contracts a deductive verifier could discharge",
    "C27": "same rendering path (liquid templates over nested hash maps of dynamically typed values); no contract within reach expresses the table content",
    "C28": "the conversion is serde/quick-xml code generated by derive macros in dependencies; svdtools' own part is a dispatch, so any contract would only restate an assumption about the dependencies",
}
