#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script only so that the JSON stays readable)."""
import json,os
P="src/patch/"
props=[]
def p(id,title,statement,qtext,why,files,mech,over=("inputs",),observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    props.append(d)
OUT=["the SVD written by `svdtools patch` (public function process_reader), parsed back"]

p("C01","A selector picks exactly the names its patterns describe",
 "A selector without braces is a comma-separated list of patterns and selects a name iff at least one pattern matches the whole name; a selector with braces is one single pattern. In a pattern `*` stands for any run of characters, `?` for one character, `[...]` for a character class (`[!...]` for its complement), `{a,b}` for alternatives, and everything else for itself, case-sensitively. Every selector-driven operation acts on all elements of the addressed container that are selected, in document order, and on no others.",
 "every selector text and every set of element names",
 "The existing tests use a handful of literal or simple `*`/`?` selectors; none mixes commas, classes and braces, or looks at the elements that must not be selected.",
 [P+"mod.rs",P+"iterators.rs"],
 [("matchname / matchsubspec / newglob",P+"mod.rs"),("MatchIter, Matched",P+"iterators.rs")],observe=OUT)
p("C02","Deletion removes exactly the selected elements and keeps order",
 "`_delete` on peripherals, registers, clusters, interrupts or fields removes every selected element of that kind from the addressed container and nothing else: all other elements keep their contents and their relative order. The plain list form inside a peripheral or cluster applies to registers and clusters alike, while the `_registers`, `_clusters` and `_interrupts` forms apply only to that kind. A `_clusters` deletion that selects nothing is an error unless the selector is optional (`?~`); the other deletions that select nothing leave the device as it was.",
 "every device and every list of delete selectors",
 "Tests delete one literal name from tiny devices; they cannot cover overlapping selectors, mixed register/cluster containers, or the untouched remainder.",
 [P+"device.rs",P+"peripheral.rs",P+"register.rs"],
 [("delete_peripheral",P+"device.rs"),("delete_child, delete_register, delete_cluster, delete_interrupt",P+"peripheral.rs"),("delete_field",P+"register.rs")],observe=OUT)
p("C03","Addition creates one element as described and never overwrites",
 "Adding a peripheral, register, cluster, field or interrupt whose name already exists in that container fails. Otherwise exactly one element appears, with the given name and attributes (as an array when dimension attributes are given), while all existing elements stay unchanged and in their relative order. A new peripheral, register or cluster is placed directly after the last of the elements that have the greatest address not above its own (first if there is none); new fields and interrupts go last.",
 "every device, every container contents and every described element",
 "Tests add one element to one nearly empty container, so position, collisions and the frame are unconstrained.",
 [P+"device.rs",P+"peripheral.rs",P+"register.rs",P+"mod.rs"],
 [("add_peripheral",P+"device.rs"),("add_register, add_cluster, add_interrupt, insert_child",P+"peripheral.rs"),("add_field",P+"register.rs"),("adding_pos, make_*",P+"mod.rs")],observe=OUT)
p("C04","Modification changes only selected elements and named attributes",
 "`_modify` sets each attribute it names to the given value on every selected peripheral, register, cluster, field, interrupt or on the device/cpu, and leaves every attribute it does not name, every unselected element and the order of elements unchanged. Giving dimension attributes turns a single element into an array or updates the existing array's dimension; an empty `access` on a register or field removes the access. Renaming a peripheral through `_modify` re-points every peripheral derived from the old name.",
 "every device, selector and attribute set",
 "Tests modify one or two attributes and look only at those.",
 [P+"device.rs",P+"peripheral.rs",P+"register.rs",P+"mod.rs"],
 [("modify_peripheral, modify_cpu",P+"device.rs"),("modify_register, modify_cluster, modify_child, modify_interrupt",P+"peripheral.rs"),("modify_field",P+"register.rs"),("make_*, modify_dim_element, modify_register_properties",P+"mod.rs")],observe=OUT)
p("C05","Deriving links to the source and keeps dependants consistent",
 "After `_derive` of a peripheral, register or field, every selected target (or one newly created element, if none exists and the selector is not optional) is marked as derived from the source: what a derived element takes from its source (a peripheral's registers, a register's fields, a field's enumerated values and write constraint) is dropped, only additionally given attributes change (those a derived element cannot hold are ignored), and all else stays; an unqualified source of a peripheral or register that does not exist is an error. Every peripheral or register of the same container that was derived from a target afterwards names the source instead. For peripherals the source is moved, if needed, in front of its dependants, without disturbing any other relative order.",
 "every device, source and target, including chains of derivations",
 "Tests cover one straightforward derivation per kind, without pre-existing dependants or ordering conflicts.",
 [P+"device.rs",P+"peripheral.rs",P+"register.rs"],
 [("derive_peripheral",P+"device.rs"),("derive_register",P+"peripheral.rs"),("derive_field",P+"register.rs")],observe=OUT)
p("C06","Rebase swaps base and derived peripheral without losing anything",
 "After `_rebase` of NEW from OLD, NEW holds OLD's former contents under NEW's own name, base address and interrupts; OLD keeps its name, base address and interrupts and is derived from NEW; every peripheral that was derived from OLD is derived from NEW. NEW stands no later than OLD and than any peripheral re-pointed to it, and no other peripheral changes contents or relative order; a missing OLD or NEW is an error.",
 "every device with both peripherals in either order and any dependants",
 "The single test rebases once in one order with no other peripherals.",
 [P+"device.rs"],[("rebase_peripheral",P+"device.rs")],observe=OUT)
p("C07","Copy duplicates the source and keeps the target's identity",
 "Copying a peripheral gives the target the source's contents, not derived from anything; an existing target keeps its own name, base address and interrupts, and a new one is appended with the new name and, when copied inside the same file, no interrupts. Copying a register gives the target the source's contents, without the source's display name, plus the explicitly given changes; an existing target keeps its address offset, a new one is appended. The source and all other elements stay unchanged, and a missing source is an error.",
 "every device, source and target (existing or new)",
 "One test copies between two existing peripherals and compares only the registers.",
 [P+"device.rs",P+"peripheral.rs"],[("copy_peripheral",P+"device.rs"),("copy_register",P+"peripheral.rs")],observe=OUT)
p("C08","Merging fields yields one field covering the selected ones",
 "`_merge` removes exactly the selected fields of a register and inserts one field in the place of the first of them, with that first field's description, the lowest of their bit offsets and the sum of their widths, named by the given key or, without one, by the longest common prefix of the selected names. All other fields keep their contents and order; selecting no field is an error.",
 "every register layout and every merge list",
 "The test merges one adjacent run; gaps in document order, several selectors and unrelated fields are not sampled.",
 [P+"register.rs"],[("merge_fields",P+"register.rs")],observe=OUT)
p("C09","Splitting a field partitions its bits exactly",
 "`_split` replaces one selected field by one single-bit field per bit of it: the k-th covers bit offset+k, is named by substituting k for `%s` in the given name (default: the field's own name followed by k), and takes the given or original description with the same substitution. All other fields keep their contents and order; selecting several fields, or none without an optional selector, is an error.",
 "every field width, offset and name template",
 "The test splits one field of one width.",
 [P+"register.rs"],[("split_fields",P+"register.rs")],observe=OUT)
p("C10","Collecting into an array is lossless on addresses and indices",
 "`_array` on registers or fields replaces the selected single elements by one array, at the place of the first of them, whose dimension is their number, whose increment is their constant address (or bit) distance, whose index list holds what stands in each name at the pattern's place, in ascending address order (or 0,1,2... when asked to start from zero), so that expanding the array gives back each original name and address. Selected elements that are not equidistant, registers whose occupied bits differ (a field array counting by its first element), or elements whose names do not fit the array's name when none is given make the patch fail rather than be collected, and no unselected element changes.",
 "every set of registers/fields and every array selector",
 "Tests collect one regular register array; irregular distances, permuted order and unselected neighbours are not sampled.",
 [P+"peripheral.rs",P+"register.rs",P+"mod.rs"],
 [("collect_in_array",P+"peripheral.rs"),("collect_fields_in_array",P+"register.rs"),("spec_ind, check_offsets, common_description",P+"mod.rs"),("get_bitmask",P+"register.rs")],observe=OUT)
p("C11","Collecting into a cluster preserves absolute addresses",
 "`_cluster` moves the selected registers out of the container into one new cluster at the place of the first of them; each child's offset plus the cluster's offset (plus index times increment for a cluster array) is the address of the register it stands for, and for arrays the number, indices and increments of all member patterns agree. Members whose counts, indices, distances or occupied bits differ, or that start at or beyond the increment, make the patch fail, and no unselected element changes.",
 "every set of registers and every cluster description",
 "One golden-file test collects one regular cluster.",
 [P+"peripheral.rs"],[("collect_in_cluster",P+"peripheral.rs"),("check_offsets, spec_ind, matchsubspec",P+"mod.rs")],observe=OUT)
p("C12","Expanding arrays and clusters keeps every register at its address",
 "`_expand_array` replaces a selected register array, in place, by one register per element with the element's own name and address; `_expand_cluster` removes the selected cluster arrays and appends, for each array element and each child, that child at cluster offset + index*increment + child offset, under the prefixed name. Apart from names no register contents change, no unselected element changes, and if nothing is selected (and, for clusters, the selector is not optional) the patch fails.",
 "every register array and cluster array, any dimension, increment and nesting",
 "Golden-file tests expand one cluster form each with one increment.",
 [P+"peripheral.rs"],[("expand_array, expand_cluster, get_cluster_registers, expand_cluster_register_name_prefix",P+"peripheral.rs")],observe=OUT)
p("C13","Strip, prefix and suffix edit exactly the intended names",
 "`_prefix` and `_suffix` put the given text before or after the name of every register (also its display name and alternate register) or field of the container; `_strip` and `_strip_end` with literal text remove that text from the beginning or the end of exactly those names (for registers also display name and alternate register, for clusters also header struct name and alternate cluster) that begin or end with it, and leave all other names alone. Nothing but these names changes.",
 "every name and every prefix/suffix text",
 "Tests strip one prefix from a few names that all carry it.",
 [P+"peripheral.rs",P+"register.rs"],[("strip_start, strip_end, add_prefix, add_suffix",P+"peripheral.rs"),("strip_start, strip_end, add_prefix, add_suffix",P+"register.rs")],observe=OUT)
p("C14","Enumerated values are complete, sorted, unique, never silently lost",
 "Describing enumerated values for a field produces exactly the described name/value/description triples, ordered by value, with the value -1 becoming the default entry; duplicate values and names beginning with a digit are errors. Existing enumerated values of the same usage of the field that carries the description are never overwritten unless replacement was requested: the patch fails instead. When one description covers several fields (which must all have the same width), the field with the lowest bit offset carries the values under a name and the others refer to it in place of their own values (or copy them, as configured).",
 "every value table, every prior state of the field and every set of covered fields",
 "Tests use one or two small enum maps on fields without prior values.",
 [P+"register.rs",P+"mod.rs"],[("process_field_enum, set_enum",P+"register.rs"),("make_ev_array, make_ev_name, make_derived_enumerated_values",P+"mod.rs")],observe=OUT)
p("C15","Usage and action tags agree with the field's access",
 "A field's access is its own, else its register's, else read-write. Read values on a write-only field, write values on a read-only field, and read-write values on a field that cannot do both are rejected; on a read-write field the usage is recorded exactly as requested, and is omitted when it coincides with the access. When read values join existing unqualified values on a read-write field, the existing ones become the write values, and vice versa. Each of the read-action and write-action tags sets exactly the action it names on exactly the selected fields.",
 "every access type, every usage tag and every prior usage",
 "The 5x4 access/usage table and the 14 tags are sampled at two or three points.",
 [P+"register.rs"],[("check_usage, make_usage, set_enum, process_field, set_field_read_action, set_field_modified_write_values",P+"register.rs")],observe=OUT)
p("C16","Write constraints are set as specified, or the patch fails",
 "A two-number list, given as the description of a field or as a write constraint, sets the field's write constraint to exactly that range; `enum` restricts to the enumerated values; `none` removes the constraint; any other form, a list of other than two numbers included, is an error; on a register `none` leaves an existing constraint as it is. Only the selected fields change, and a description that selects no field is an error unless the selector is optional.",
 "every constraint form, every pair of numbers, every field set",
 "Tests set one range.",
 [P+"mod.rs",P+"register.rs"],[("get_write_constraint",P+"mod.rs"),("process_field_range, modify_field",P+"register.rs")],observe=OUT)
p("C17","Clearing removes constraints from exactly the addressed fields",
 "`_clear` and `_clear_fields` remove the enumerated values and the write constraint of every selected field (all fields of every selected register or peripheral, registers inside clusters included), skip derived peripherals, registers and fields, and change nothing else.",
 "every device and every clear selector at each of the three levels",
 "No test checks what must stay.",
 [P+"device.rs",P+"peripheral.rs",P+"register.rs"],[("clear_field",P+"register.rs"),("clear_fields",P+"peripheral.rs"),("clear_fields",P+"device.rs")],observe=OUT)
p("C18","Included patches merge with the including file taking precedence",
 "Merging an included file keeps every key and value of the including file, adds the keys only the included file has, merges dictionaries recursively and concatenates different lists (including file's entries first, a scalar string counting as one entry that is not repeated; equal lists are kept once); on conflicting scalars the including file wins. Includes, at device and peripheral level, are followed to any depth and relative to the file that names them, a file being merged into the same dictionary only once, and the include directives themselves do not remain.",
 "every pair of documents and every include tree",
 "One test merges one pair of small files.",
 [P+"mod.rs"],[("yaml_includes, update_dict, abspath, load_patch",P+"mod.rs")],over=("inputs","configurations"),observe=["load_patch, expand-patch output"])
p("C19","The dependency file names exactly the included files",
 "The dependency file lists the output file followed by, as a set, the absolute path of every file that patching would read through includes, directly, nested, or below a peripheral, and no other file.",
 "every include tree",
 "One test with two includes.",
 ["src/makedeps/makedeps_cli.rs",P+"mod.rs"],[("makedeps, write_file","src/makedeps/makedeps_cli.rs"),("yaml_includes",P+"mod.rs")],over=("inputs","configurations"),observe=["the file written by makedeps"])
p("C20","Scalars of a patch denote the documented values",
 "An integer in a patch is read as the YAML integer or as a decimal, `0x`/`0X` hexadecimal, `0b` or `#` binary string (underscores ignored, `x` digits of a binary string read as 0); a boolean as true/false, True/False or 1/0. A value that is none of these where a number or boolean is required makes the patch fail and never becomes another value, and attributes given as scalars (size, access, resetValue, resetMask, offsets, widths) receive exactly the value denoted; a number that does not fit the attribute makes the patch fail, except that -1 as an enumerated value denotes the default entry.",
 "every scalar text",
 "Tests use a few decimal and hexadecimal numbers.",
 [P+"yaml_ext.rs",P+"mod.rs"],[("parse_i64, parse_bool, AsType, GetVal",P+"yaml_ext.rs"),("get_register_properties, modify_register_properties, make_*",P+"mod.rs")],observe=OUT)
p("C21","A mandatory selector that matches nothing fails; an optional one does nothing",
 "For peripheral, register, cluster and field sections, register/cluster/field modification, array and cluster collection, field splitting and enumerated-value or range descriptions, a selector without `?~` that selects nothing makes the whole patch fail. With `?~` in the same place the operation does nothing at all when nothing is selected, and otherwise acts exactly as without the mark. In a cluster collection the mark belongs to each member pattern: an optional member without a hit is left out, and a collection without any member fails.",
 "every operation that takes a selector, every device",
 "Tests only exercise selectors that match.",
 [P+"device.rs",P+"peripheral.rs",P+"register.rs",P+"mod.rs"],[("process_peripheral",P+"device.rs"),("process_child, process_cluster, modify_child, modify_register, modify_cluster, collect_in_array, collect_in_cluster",P+"peripheral.rs"),("modify_field, process_field_enum, process_field_range, split_fields, collect_fields_in_array",P+"register.rs"),("Spec::spec",P+"mod.rs")],observe=OUT)
p("C22","A failed patch or conversion leaves the output file untouched",
 "If reading the patch or its includes, reading or parsing the input, applying the patch, encoding the result, or reading the formatting configuration fails, the command reports an error and the output file is neither created nor changed. On success the output file holds exactly the complete encoded result.",
 "every failing stage, with and without a pre-existing output file",
 "No test runs the file-level command on a failing patch.",
 [P+"mod.rs","src/convert/convert_cli.rs","src/lib.rs"],[("process_file, process_reader",P+"mod.rs"),("convert, open_svd","src/convert/convert_cli.rs"),("get_encoder_config","src/lib.rs")],over=("inputs","fault_sequences"),observe=["the output file of patch and convert"])
p("C23","Elements that are derived are not edited through their own section",
 "A section addressed to a derived peripheral only adds, modifies or deletes its interrupts, and a section addressed to a derived register does nothing; everything else in the element stays as it was, and sections of non-derived siblings still apply.",
 "every device with derived elements and every section",
 "No test has a section for a derived element.",
 [P+"peripheral.rs",P+"register.rs"],[("PeripheralExt::process",P+"peripheral.rs"),("RegisterExt::process",P+"register.rs")],observe=OUT)
p("C24","The interrupt list is complete, ordered, and its gaps are exact",
 "The interrupt listing shows every interrupt of every peripheral exactly once, ordered by number, equal numbers in document order; the reported gaps are exactly the numbers below the greatest interrupt number that no interrupt has, ascending.",
 "every multiset of interrupt numbers",
 "One test with two interrupts.",
 ["src/interrupts/interrupt_list.rs","src/interrupts/interrupts_cli.rs","src/interrupts/svd_reader.rs"],[("get_ordered_interrupts, gaps","src/interrupts/interrupt_list.rs"),("peripherals_with_interrupts","src/interrupts/svd_reader.rs")],observe=["`svdtools interrupts` output"])
p("C25","The memory map lists every element once, at its absolute address",
 "The memory map is the sorted list of one line per peripheral, interrupt, cluster, register and field after expansion of arrays; every address printed is the peripheral base plus the offsets of all enclosing clusters and array elements, in upper-case hexadecimal, and field lines carry bit offset and width. A derived peripheral is listed with the registers of the peripheral at the end of its chain of derivations.",
 "every device",
 "One test with two peripherals, no arrays, clusters or derivation.",
 ["src/mmap/mmap_cli.rs","src/common/str_utils.rs","src/common/svd_utils.rs"],[("to_text, get_registers, get_fields, get_periph_registers","src/mmap/mmap_cli.rs"),("format_address, get_description","src/common/str_utils.rs"),("access_with_brace","src/common/svd_utils.rs")],observe=["`svdtools mmap` output"])
p("C26","HTML pages show every register and field with correct documentation state",
 "The generated device page shows every register of every peripheral at its offset, each field at its bits, and documentation percentages computed from the fields that have enumerated values, a write constraint or read-only access.",
 "every device","No test covers the HTML generator.",
 ["src/html/html_cli.rs"],[("parse_device, parse_register, progress","src/html/html_cli.rs")],observe=["generated HTML"])
p("C27","HTML comparison tables list exactly the members of each side",
 "The comparison page lists, per peripheral, register and field, exactly which of the compared devices contain it.",
 "every pair of devices","No test covers the comparison.",
 ["src/html/htmlcompare_cli.rs"],[("html_tables, who_has_what_*","src/html/htmlcompare_cli.rs")],observe=["generated HTML"])
p("C28","Conversion between formats preserves the device",
 "Converting a device from one of SVD/XML, YAML or JSON to another and back yields the same device description.",
 "every device and pair of formats","No test converts.",
 ["src/convert/convert_cli.rs"],[("convert, open_svd","src/convert/convert_cli.rs")],observe=["converted files"])
p("C29","The operations of a patch act one after another in a fixed order",
 "The outcome of a patch does not depend on how its operations are written down: it is what applying its operations one at a time gives. On the device these are deleting, copying, modifying, clearing, adding, deriving and rebasing, then the element sections in text order; inside an element, structure edits (deleting, stripping, prefixing, clearing, modifying, adding, deriving, merging, splitting) come before the sections of its children, and collecting into arrays and clusters comes last. Several operations of one kind act in text order, each exactly once, and the first that fails fails the patch.",
 "every device and every combination of operations in a patch",
 "Every test patch has one kind of operation, so any reordering, omission or repetition between kinds goes unseen.",
 [P+"mod.rs",P+"device.rs",P+"peripheral.rs",P+"register.rs"],[("DeviceExt::process",P+"device.rs"),("PeripheralExt::process, ClusterExt::{pre_process, process, post_process}",P+"peripheral.rs"),("RegisterExt::process",P+"register.rs")],observe=OUT)
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for d in props: f.write(json.dumps(d)+"\n")
