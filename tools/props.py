TRUST = ("Sound for the facts it tracks over every value the abstract document stands for; trusts rustc's MIR, the driver, and the models of library functions (svd-rs builders, yaml-rust, std, globset) in sa/models.py. "
         "Fails closed: an anchor or construct it cannot analyse is reported as a violation.")

prop("C06", "A rule that matches nothing is reported, unless marked optional",
     "A patch rule that addresses existing peripherals, registers, clusters, fields or interrupts by a name specification which matches no element makes the whole patch run fail with an error, so a mistyped name never goes unnoticed. "
     "With the optional marker `?~` in front of the specification the same rule leaves the device unchanged and the run continues. "
     "This covers the rule blocks for a peripheral, register, cluster or field, `_modify` of registers, clusters and fields, `_array`, `_cluster`, `_expand_array`, `_expand_cluster`, `_merge`, `_split`, `_delete: _clusters`, enumerated values, value ranges and read/write actions. "
     "(`_delete`, `_clear`, `_clear_fields`, `_strip*`, `_rebase` and the `_modify` of peripherals and interrupts accept a name that is not there; `_derive` and `_add` create it.)",
     ["inputs"], "all devices and all name specifications (plain, wildcard, comma-separated) of every rule kind that reports unmatched names, given that nothing matches",
     "The tests patch a few sample devices in which the specs match; none covers the unmatched branch of each of the rule kinds.",
     ["src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs", "src/patch/iterators.rs"],
     [("is_empty checks before the loops over matched elements", "src/patch/peripheral.rs process_child/modify_child/..."), ("optional marker", "src/patch/mod.rs Spec::spec")],
     ABS + " (matcher forced to 'no match'; reachability of Ok)", "For the rule kinds listed in sa/c06.py. " + TRUST)

prop("C10", "`_modify` writes each given attribute, unaltered, to every matched element",
     "A `_modify` rule stores the value of each key it gives in exactly the SVD attribute that key names, unaltered apart from the type conversion and path interpolation of descriptions, on every element the specification matches. "
     "It changes no attribute whose key is not given. This holds for the device, cpu, peripheral (dim, interrupts, address blocks included), cluster, register, interrupt and field levels.",
     ["inputs"], "all patch documents of the form `_modify: {..}` with any subset of the supported keys, all devices",
     "There are about 110 (level, key) pairs; the tests modify a handful of keys on one or two elements, so a crossed key, a missed element or a dropped key stays invisible.",
     ["src/patch/mod.rs", "src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs"],
     [("make_peripheral/make_cluster/make_register/make_field/make_cpu/make_interrupt/make_address_block/make_dim_element", "src/patch/mod.rs"), ("loops over matched elements with modify_from", "src/patch/peripheral.rs")],
     ABS + " (provenance of every attribute store + must-happen analysis)", TRUST)

prop("C33", "`_add` creates the element with exactly the given attributes",
     "An `_add` rule that succeeds inserts a new element whose name is the key of the rule and whose attributes are exactly the given ones, each in the SVD attribute its key names, nested registers, fields, interrupts, address blocks and dim information included. "
     "Attributes that were not given stay unset.",
     ["inputs"], "all `_add` rules (peripheral, register, cluster, interrupt, field; nested forms) with any subset of the supported keys, all devices",
     "The tests add three small elements; about 130 (form, key) pairs exist.",
     ["src/patch/mod.rs", "src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs"],
     [("make_* builders", "src/patch/mod.rs"), ("add_peripheral/add_register/add_cluster/add_interrupt/add_field", "src/patch/")],
     ABS + " (provenance of every attribute of the inserted element + must-happen analysis)", TRUST)

prop("C07", "The rules of one block take effect in a fixed order",
     "Within one block of a patch file the rules always take effect in the same order, regardless of the order in which they are written: at every level deletions come first, then copies, modifications and added elements, then the rules for individual elements, "
     "and array and cluster collection last (device: _delete, _copy, _modify, _clear_fields, _add, _derive/_rebase, peripheral rules; peripheral and cluster: _delete, _copy, _strip*, _prefix/_suffix, _modify, _clear_fields, _add, _derive, register rules, _expand_array, _array, _cluster, _clusters, _expand_cluster; "
     "register: _delete, _strip*, _prefix/_suffix, _clear, _modify, _add, _derive, _merge, _split, field rules, _array).",
     ["inputs"], "all combinations of rule keys in one block, in any textual order, all devices",
     "The number of key combinations per block is exponential; the tests use one or two keys per block, so a swapped pair stays invisible.",
     ["src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs"],
     [("Device::process, PeripheralExt::process, RegisterBlockExt, ClusterExt::process, RegisterExt::process", "src/patch/")],
     ABS + " (events of each key found by differential analysis; control-flow ordering of the events)", TRUST)

prop("C09", "`_add` refuses a name that is already taken",
     "Adding a peripheral, interrupt, register, cluster or field whose name equals that of an existing element of the same kind in the same parent is an error and never inserts a second element of that name.",
     ["inputs"], "all devices, all `_add` forms and all names",
     "The tests never add an existing name; each of the ten forms has its own duplicate test on its own collection.",
     ["src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs"],
     [("name comparison before push in add_peripheral, add_interrupt, add_register, add_cluster, add_field", "src/patch/")],
     ABS + " (name comparison forced to `equal`; reachability of the insertion and of success)", TRUST)

prop("C31", "A rule changes every element its specification matches",
     "A rule whose name specification matches several peripherals, registers, clusters or fields takes full effect on each of them, not just on the first or on some: the whole of the rule is applied to every matching element, or the run fails. "
     "This covers rules for individual elements, `_modify`, `_derive`, enumerated values (`_read`, `_write`, `_replace_enum`), value ranges, read actions and modified write values, `_clear`/`_clear_fields`, and `_strip`/`_strip_end`/`_prefix`/`_suffix`. (Rules for the content of a derived peripheral, register or cluster, and `_clear`/`_clear_fields` of derived elements, have no effect; that is by design.)",
     ["inputs"], "all devices, all specifications (plain, wildcard, comma-separated) of the listed rule kinds",
     "The tests use specifications that match one or two elements at fixed positions; a loop that stops early or an element that is filtered out on the way shows only for particular devices.",
     ["src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs", "src/patch/iterators.rs"],
     [("loops over iter_peripherals/iter_registers/iter_clusters/iter_fields", "src/patch/"), ("MatchIter, OptIter", "src/patch/iterators.rs")],
     ABS + " (must-happen analysis with every matching element handed out; iteration early-exit analysis)", TRUST)

prop("C32", "The optional marker does not weaken a rule that matches something",
     "A rule marked optional with `?~` has exactly the same effect on the elements it matches as the unmarked rule; the marker only suppresses the error for a specification that matches nothing.",
     ["inputs"], "all devices, all rule kinds that accept the marker",
     "The marker is handled separately by each rule kind (about 20 places); the tests use it in one or two.",
     ["src/patch/mod.rs", "src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs"],
     [("Spec::spec", "src/patch/mod.rs"), ("`(spec, ignore) = spec.spec()` in each rule", "src/patch/")],
     ABS + " (the analysis of C31 on documents with the marker)", TRUST)

prop("C04", "No failure is swallowed",
     "Whenever a step of a run fails - a file that cannot be opened or parsed, a patch value of the wrong type, a value rejected by the SVD data model, a rule reported as unmatched or refused - the whole command fails: "
     "no failure is replaced by a default, skipped or forgotten on the way up, and a failed command ends with a non-zero exit status. (The peripheral-level rules that do not apply to derived peripherals, and rules marked optional, are not failures.)",
     ["inputs", "fault_sequences"], "all patch documents of the analysed rule forms, all devices, every single point of failure in the patch, expand-patch, makedeps, convert, interrupts, mmap, html and htmlcompare commands",
     "There are about a thousand call sites that can fail; a dropped error shows only if exactly that step fails, which the tests provoke almost nowhere.",
     ["src/patch/mod.rs", "src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs", "src/patch/iterators.rs", "src/patch/yaml_ext.rs", "src/patch/patch_cli.rs", "src/convert/convert_cli.rs",
      "src/makedeps/makedeps_cli.rs", "src/interrupts/interrupts_cli.rs", "src/mmap/mmap_cli.rs", "src/html/html_cli.rs", "src/html/htmlcompare_cli.rs", "src/cli.rs"],
     [("error propagation with `?` / anyhow contexts", "everywhere"), ("exit status", "src/cli.rs run")],
     ABS + " (fault injection into the abstract run: for every reached call that returns a Result, the continuation after an Err is re-analysed up the call path and must not be able to end successfully)", TRUST)

prop("C35", "A malformed value in a patch is refused",
     "A patch in which a rule or an attribute key carries a value of the wrong type (a number or list where a mapping belongs, a mapping or boolean where a name belongs, a non-number where a number belongs, a negative number or one of more than 32 bits where a 32-bit attribute belongs, a non-boolean where a boolean belongs, a list holding something that is not a name) "
     "or an unknown word where one of a fixed set of keywords belongs (access, readAction, modifiedWriteValues, usage, endian, bitRange) makes the run fail with an error; the value is never skipped, replaced by a default or half applied with success reported.",
     ["inputs"], "every place of a patch where a rule block or an attribute value can stand (about 420), each with several malformed values, whenever the rule is reached; all devices",
     "No test feeds a malformed value to any rule except the five unit tests of str_vec_iter; the places number in the hundreds.",
     ["src/patch/yaml_ext.rs", "src/patch/mod.rs", "src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs"],
     [("AsType / GetVal accessors", "src/patch/yaml_ext.rs"), ("make_* builders and their parse_str conversions", "src/patch/mod.rs")],
     ABS + " (malformed values substituted place by place; reachability of Ok and of the next iteration)", TRUST)

prop("C01", "Only the designated output is written, and only once all else succeeded",
     "A command changes nothing in the file system except the output named on its command line (for html and htmlcompare: files below the output directory; for patch without an output name: the SVD file's name with `.patched`; interrupts, mmap, info and expand-patch without an output name write no file). "
     "patch, expand-patch, makedeps and convert open the output for writing only after every input has been read, every rule applied and the result encoded, so a run that fails for any reason other than the output itself leaves an existing output file untouched. "
     "A successful run has written its whole output.",
     ["inputs", "fault_sequences"], "all commands, all option values, every point at which a run can fail",
     "The tests call library functions on strings in memory; no test looks at the file system after a failed run.",
     ["src/cli.rs", "src/patch/mod.rs", "src/patch/patch_cli.rs", "src/convert/convert_cli.rs", "src/makedeps/makedeps_cli.rs", "src/html/html_cli.rs", "src/html/htmlcompare_cli.rs"],
     [("File::create after processing", "src/patch/mod.rs process_file, src/convert/convert_cli.rs convert"), ("Command::run", "src/cli.rs")],
     "effect analysis: abstract interpretation of rustc MIR from the command dispatcher with provenance of every path acted on; control-flow ordering of the effects", TRUST)

prop("C20", "Options and file formats given on the command line take effect",
     "convert and info read the input in the format given with --input-format, else in the one its extension names (svd SVD xml XML; yml yaml YAML; json JSON); convert writes in the format given with --output-format, else the one of the output's extension; an unknown extension is an error. "
     "--expand, --expand-properties and --ignore-enums apply the step they name to what is written, and without them it is not applied. --format-config (YAML or JSON, by extension) controls the formatting of the SVD output of convert and patch; an unknown extension is an error. "
     "patch reads the SVD file named by `_svd`, applies the rules of the patch file, with --post-validate fails unless the patched device passes strict validation, uses the --enum-derive level given (default `enum`), and shows the rules in the error message exactly with --show-patch-on-error. interrupts prints the gaps unless --no-gaps is given.",
     ["configurations"], "all combinations of a command with each of its options and each file extension word; all file contents",
     "No test runs a command through its command line options; the options are forwarded by hand through three layers.",
     ["src/cli.rs", "src/convert/convert_cli.rs", "src/patch/mod.rs", "src/lib.rs", "src/interrupts/interrupts_cli.rs", "src/patch/patch_cli.rs"],
     [("Command::run", "src/cli.rs"), ("InputFormat/OutputFormat::from_str, open_svd, convert", "src/convert/convert_cli.rs"), ("get_encoder_config", "src/lib.rs"), ("process_file, process_reader", "src/patch/mod.rs")],
     ABS.replace("patch documents", "command lines") + " (constant and provenance propagation of each option to the library call it controls; must-pass-through analysis)", TRUST)

prop("C14", "Included files take effect in full and yield to the including file",
     "Every file named by `_include` at device level or inside a peripheral block, directly or through further includes, is located relative to the file that names it, loaded and merged into that block (a file named more than once for the same block is merged once). "
     "Merging loses nothing: a rule key the including document lacks is taken over, mappings are merged key by key, lists are joined, and a single name is joined with a list. Where both give a plain value, that of the including document stays. "
     "A mapping merged with anything but a mapping is an error.",
     ["inputs"], "all patch documents and included documents of the tabulated shapes; every rule key; any depth of nesting (by induction over one merge step)",
     "One test uses includes of a single shape; the merge is a match over shape pairs with catch-all arms.",
     ["src/patch/mod.rs"], [("merge_includes, update_dict", "src/patch/mod.rs"), ("load_patch", "src/patch/mod.rs")],
     ABS + " (documents of given shape; must-pass-through analysis of the merge)", "Nested loading and merging are cut at the recursive call and checked to receive the right documents. " + TRUST)

prop("C15", "makedeps lists every included file",
     "The dependency list written by makedeps names every file that loading the patch opens through `_include`, at device and peripheral level, directly or nested, including files that turn out to hold no rules.",
     ["inputs"], "all patch files and include trees",
     "The only test has two included files at one level.",
     ["src/makedeps/makedeps_cli.rs", "src/patch/mod.rs"], [("makedeps, write_file", "src/makedeps/makedeps_cli.rs"), ("yaml_includes", "src/patch/mod.rs")],
     ABS + " (must-pass-through from each opened file to the list and from the list to the output)", TRUST)

prop("C18", "mmap lists every element of the device at its absolute address",
     "The memory map printed by mmap has a line for every peripheral, interrupt, cluster, register and field of the device, array elements one by one; a derived peripheral without registers of its own has those of the peripheral it is derived from. "
     "A line carries the element's own name, its description and, if it is derived, what from; registers and fields also their access, fields their bit offset and width. The address is the base address of the peripheral plus the offsets of all enclosing clusters and of the element (for fields: of their register). "
     "The lines are sorted; none is left out or merged with another.",
     ["inputs"], "all devices of any nesting of peripherals, clusters, registers and fields, single or array",
     "The one test has single registers only: no array, no cluster, no derived element.",
     ["src/mmap/mmap_cli.rs", "src/common/svd_utils.rs", "src/common/str_utils.rs"], [("to_text, get_registers, get_fields", "src/mmap/mmap_cli.rs")],
     "abstract interpretation of rustc MIR per device shape: must-pass-through from each element handed out to a complete line, provenance of the line's parts, sums making up the address", TRUST)

prop("C19", "interrupts lists every interrupt of every peripheral in order of its number",
     "The interrupts command prints one line for each interrupt of each peripheral of the device, with its number, name, description and the peripheral's name, ordered by number. An interrupt that several peripherals name is listed for each of them.",
     ["inputs"], "all devices", "No test covers the list that is printed; one covers the gaps.",
     ["src/interrupts/interrupt_list.rs", "src/interrupts/interrupts_cli.rs", "src/interrupts/svd_reader.rs"],
     [("get_ordered_interrupts", "src/interrupts/interrupt_list.rs"), ("print_interrupts", "src/interrupts/interrupts_cli.rs"), ("peripherals_with_interrupts", "src/interrupts/svd_reader.rs")],
     "abstract interpretation of rustc MIR: must-pass-through from each interrupt handed out to its line, adapters that leave out or merge elements, sort key provenance", TRUST)

prop("C34", "`_delete` removes exactly what its specification matches",
     "A `_delete` rule removes every element of the kind it addresses whose name its specification matches, whether single, array or derived, and every specification of a list is applied; "
     "it removes nothing else and changes nothing else in the device.",
     ["inputs"], "all forms of `_delete` (peripherals; registers, clusters, interrupts of peripherals and clusters; fields), all devices",
     "The tests delete three elements; what must stay is checked in none of the cluster or kind-specific forms.",
     ["src/patch/mod.rs", "src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs"],
     [("delete_peripheral, delete_child, delete_register, delete_cluster, delete_interrupt, delete_field", "src/patch/")],
     ABS + " with the matcher forced to either answer: results of the predicate that chooses what goes, must-happen analysis of the removal, effects beyond it", TRUST)

prop("C24", "Copies, derivations and rebasing take and leave the right things",
     "`_copy` puts in a copy of the source named in the rule (of this device or of the other file) with everything in it, under the name given: a peripheral replaced keeps its base address and interrupts, a new one copied in the device has no interrupts, none stays derived; "
     "a register replaced keeps its address offset, attributes given in the rule are those of the copy. `_derive` makes the element derived from the source, with only what is given. `_rebase` moves the contents to the new peripheral (with its name, base address and interrupts) and leaves the old one, with its own name, base address and interrupts, derived from it. "
     "After `_derive`, `_rebase` and `_modify: name`, every element that referred to the one derived, moved or renamed (and no other) refers to the new one. A source that does not exist, or none given, is an error.",
     ["inputs"], "all `_copy`, `_derive`, `_rebase` and `_modify: name` rules for peripherals and registers, all devices",
     "A lost interrupt, base address or reference shows only for devices with several derived peripherals, with interrupts on one side, or an existing target.",
     ["src/patch/device.rs", "src/patch/peripheral.rs"],
     [("copy_peripheral, derive_peripheral, rebase_peripheral, modify_peripheral", "src/patch/device.rs"), ("copy_register, derive_register", "src/patch/peripheral.rs")],
     ABS + ": the elements told apart by where they are looked up; reaching definitions of every attribute of an inserted copy; must-pass-through for references; unreachability of success when the source is missing",
     "Derived fields are C28; references to registers by a path that the rule spells differently, and the order of the peripherals, are not decided. " + TRUST)

prop("C25", "A rule changes only elements whose names its specification covers",
     "A specification is a comma-separated list of glob patterns, or, if it contains braces, a single pattern; a leading `?~` (optional rule) is no part of it. A rule has its effects on an element as soon as one of the patterns covers the element's name, "
     "and no effect on elements none of them covers. Patterns are taken as they stand and compared, case-sensitively, with the names as they are in the device. (Not meant: elements created by `_derive`, references to an element that is renamed.)",
     ["inputs"], "all rule kinds that take a specification, all devices and names",
     "Each rule kind calls the matcher on its own (about 30 places); the tests mostly match everything there is.",
     ["src/patch/mod.rs", "src/patch/iterators.rs", "src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs"],
     [("matchname, matchsubspec, newglob, Spec", "src/patch/mod.rs"), ("MatchIter", "src/patch/iterators.rs"), ("the rule kinds", "src/patch/")],
     ABS + " with the matcher forced per pattern: effects with no match, with each pattern alone, provenance of both operands of the comparison", "What a single glob pattern covers is left to the globset library. " + TRUST)

prop("C28", "Field rules write the values, usages and actions they give",
     "A field rule gives every field it matches enumeratedValues holding exactly the listed values (name, number, description; -1 is the default), named by `_name` or after the field, for reading (`_read`, `_RM`..), writing (`_write`, `_W1C`..) or both as the rule "
     "and the access of the field say, and sets readAction and modifiedWriteValues as the key says; several such keys in one rule all take effect. A use the access rules out, two values of one number, ill-formed values and values for fields of different widths are errors. "
     "Enumerations that are there are replaced only under `_replace_enum` (only that for the same use); otherwise another one for the same use is an error, and one for the other use is kept. `_derivedFrom` takes values from the one named enumeration of the register with that use, or is an error.",
     ["inputs"], "all field rules with values and read/write keys, all accesses of field and register, all enumerations already present, all derive modes",
     "Keys x accesses x existing enumerations x replace make several hundred cases; the tests go through a few of them.",
     ["src/patch/register.rs", "src/patch/mod.rs"],
     [("READ/WRITE tables and their iteration", "src/patch/register.rs process_field"), ("set_enum", "src/patch/register.rs process_field_enum"), ("check_usage, make_usage", "src/patch/register.rs"), ("make_ev_array, make_ev_name", "src/patch/mod.rs")],
     ABS + " (decision tables over forced access, usage and existing enumerations)", TRUST)

prop("C11", "Affix rules take off and put on names exactly what they say",
     "`_strip` takes off each name it concerns the shortest beginning that its pattern (`PREFIX_*_`) matches, `_strip_end` the longest ending; a name without such a part stays as it is. "
     "`_prefix` puts exactly the given text before, `_suffix` behind each name it concerns. Concerned are, in a peripheral or cluster, name, displayName and alternateRegister of its registers and (only `_strip`, `_strip_end`) "
     "name, headerStructName and alternateCluster of its clusters, and in a register the names of its fields; nothing else changes.",
     ["inputs"], "the four rules in peripherals, clusters and registers, as text and as list; all patterns, names and devices",
     "The tests strip one pattern whose matches are as long as the pattern is; patterns with `*`, names matched wholly, repeatedly or not at all, and the optional names are not covered.",
     ["src/patch/peripheral.rs", "src/patch/register.rs", "src/patch/mod.rs"], [("strip_start, strip_end, add_prefix, add_suffix", "src/patch/peripheral.rs"), ("strip_start, strip_end, add_prefix, add_suffix", "src/patch/register.rs")],
     ABS + " with the pattern matching and not matching: provenance of the position a name is cut at and of the text put on it, per name attribute; completeness of the attributes; at-most-once analysis",
     "globset decides what a pattern matches. That every element is reached is C31. " + TRUST)

prop("C12", "Collecting into arrays and clusters keeps every address",
     "`_array` (registers, fields) and `_cluster` succeed only if the collected elements, in the order of their addresses, all have the same distance (that of the array), their fields cover the same bits (fields: have the same width), and descriptions agree or are given; "
     "for `_cluster` also every register occurs equally often, with the same indices, no dim blocks differ, and the registers lie within the distance. The array gets the number of the elements, their distance and the indices in their names (or from 0 under `_start_from_zero`); "
     "a cluster starts at its lowest register, the others are relative to it; a cluster without `%s` holds at most one register per rule. `_expand_cluster` puts every register and cluster of every element at offset + own offset + n * dimIncrement, n from 0 up to dim; `_expand_array` puts all elements into the device.",
     ["inputs"], "all collecting and expanding rules in peripherals, clusters and registers, all devices",
     "The tests collect well-formed groups; a comparison lost for the third element, the second group, or an option is not seen.",
     ["src/patch/peripheral.rs", "src/patch/register.rs", "src/patch/mod.rs"],
     [("collect_in_array, collect_in_cluster, expand_cluster, expand_array", "src/patch/peripheral.rs"), ("collect_fields_in_array, get_bitmask", "src/patch/register.rs"), ("check_offsets, common_description", "src/patch/mod.rs")],
     ABS + ": comparisons found by operand provenance, continuation of the run from each under the answer `different`, must-pass-through, provenance of the array's attributes", "slice::windows(2) is taken to hand out pairs. " + TRUST)

prop("C03", "The same input gives the same output in every run",
     "The files a command writes and the text it prints depend on its input files and options only: two runs on the same input give the same bytes. No clock, environment variable, random number, memory address, thread timing, order of a directory or of a hash collection gets into them. "
     "(Not meant: the progress messages that `html` prints while it works on several files, and its decision by file times whether a page is up to date.)",
     ["inputs", "schedules"], "all commands on all inputs, all thread schedules and hash seeds",
     "A run gives one order; a test passes or fails by chance, mostly passes when there are few elements.",
     ["src/lib.rs", "src/common", "src/html", "src/interrupts", "src/makedeps", "src/mmap", "src/patch", "src/convert"],
     [("hash maps and sets that only look up or are sorted before use", "src/html/htmlcompare_cli.rs, src/patch/"), ("par_iter().collect() keeps the order", "src/html/html_cli.rs")],
     "type-based scan of rustc MIR: calls that read something from outside the input; def-use closure from every iterator whose type contains one of a hash collection, a directory or unordered threads, up to a use that does not depend on the order",
     "Sorting after an unordered iteration counts only by a key that tells the elements apart. Libraries (svd-encoder, liquid, yaml-rust2) are taken to be deterministic. " + TRUST)

prop("C26", "No input makes a command panic",
     "Malformed patch files, devices and arguments end in an error message and a non-zero exit status, never in a panic, an endless recursion or an arithmetic overflow.",
     ["inputs"], "all patch files, SVD files and arguments", "The tests hold well-formed input.",
     ["src/patch", "src/html", "src/mmap", "src/interrupts"], [("unwrap, expect, indexing, arithmetic", "src/")],
     na="Does not hold on the current tree and is not promised: the code unwraps and calls todo!() in places that input reaches (empty YAML, invalid globs, msb < lsb, derived clusters); which of the remaining unwraps, indexing and additions can fail depends on runtime values no sound static bound here excludes.")

prop("C30", "The Rust and the Python implementation agree",
     "Commands of the Python package give the same devices as the Rust program for the same patch files.", ["inputs"], "all patch files", "Only the sample files are compared.",
     ["python"], [("legacy implementation", "python/")],
     na="Equivalence of two programs in different languages over unbounded documents is out of reach of static analysis; the Python package is legacy and differs knowingly.")

prop("C37", "Converting there and back gives the same device",
     "Converting SVD to YAML or JSON and back to SVD gives a device equal to the first one.", ["inputs"], "all devices and formats", "The tests convert sample devices.",
     ["src/convert/convert_cli.rs"], [("parse and print per format", "src/convert/convert_cli.rs")],
     na="Decided by svd-parser, svd-encoder and serde derive code outside this repository; in this repository only the choice of format and options, which C20 decides.")

prop("C38", "The numbers computed are right",
     "Gaps in the interrupt list, bit masks, progress percentages, addresses in generated pages and merged bit ranges are arithmetically right, without overflow.", ["inputs"], "all devices", "The tests compute a few.",
     ["src/interrupts", "src/html", "src/patch"], [("gap computation, bitmask, percentages", "src/")],
     na="Relations between runtime numbers; the abstract domain here tracks which values a sum is made of (used in C12, C18, C24), not its value, and running or solving would be another technique.")

prop("C39", "Patching twice changes nothing more",
     "Applying the same modifications again to a patched device leaves it as it is.", ["histories"], "all patch files and devices", "No test patches twice.",
     ["src/patch"], [("Device::process", "src/patch/device.rs")],
     na="Not a property of the tool: `_add`, `_delete`, `_merge` and renaming rules are refused or change the device again by design.")

prop("C36", "`_merge` and `_split` replace exactly the fields they cover, bit for bit",
     "`_merge` takes out exactly the fields its specifications cover and puts in one field: under the name given in the rule or the longest common prefix of their names, starting at the lowest of their bits, as wide as all of them together, with their description and access. "
     "`_split` takes out the field its specification covers and puts in one field per bit, at the bit's place and one bit wide, under the name (and description) given or that of the field, with the number of the bit counted from 0 for `%s` (or behind the name); a specification covering several fields is an error. "
     "Other fields stay as they are.",
     ["inputs"], "all forms of `_merge` and `_split`, in registers of peripherals and clusters, all devices",
     "The tests merge and split one well-ordered group; other orders, neighbours with similar names, offsets other than 0, and several matches are not covered.",
     ["src/patch/register.rs"], [("merge_fields, split_fields", "src/patch/register.rs")],
     ABS + " with the matcher and the comparisons of names forced: provenance of each attribute of the fields added (minimum, sum, counted range), results of the predicate that removes, must-happen and at-most-once analysis",
     "Which of several descriptions is taken, and that an access is taken only if all share it, are not decided (flow-insensitive). `longest_common_prefix` of the `commands` crate is trusted. " + TRUST)
