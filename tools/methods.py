# How each property is decided (text for DESIGN.md)
MISSED = {}
METHODS = {
"C36": "18 documents (each form of `_merge`, `_split`, with and without name and description, registers of peripherals and of clusters). The attributes of the FieldInfo that gets into the register are read off its builder. Merge: offset is made only of offsets of fields and is the result of a minimum (library call or comparison), width only of widths by addition, each in a loop that takes in every field; name the key of the rule, or made from the whole list of names; description and access only from theirs. Split: name and description are the text given (pattern `%s`) or of the field, with a number that is exactly the counter from 0 below the width (for or while loop), the offset is the sum of the field's and that number, width the constant 1, one addition per number. The removing predicate answers yes for fields found and no for others (matcher and name comparisons forced), with which nothing of those others gets into the new field. From the node where a field is found success is unreachable without the addition and the removal, a second addition unreachable without another rule or register; with every hand-out of a found field forced to find another one, success is unreachable for `_split`.",
"C03": "All call sites of the monomorphic functions reachable from `main` are scanned. (1) A call that yields something from outside the input (clock, environment, random numbers, process or thread ids, hasher output, addresses formatted with `{:p}`) is a violation. (2) Every local whose *type* contains an iterator of a hash collection, a directory listing, a channel or an unordered parallel bridge starts a def-use closure: it may end in something that does not depend on the order (count, any, all, min/max, a set or map collected again, a lookup, a list sorted by a key that tells the elements apart before any other use, an assertion); a write, push, print, first/last, enumerate, early exit with a value or an error depending on the element is a violation, with the chain of call sites. (3) Closures handed to parallel iterators must not send to, lock or modify shared state.",
"C01": "Every call of a file-system effect (create, write, rename, remove, copy, create_dir..) reachable from the command dispatcher is collected per subcommand with the provenance of its path argument; the path must be the designated output (or lie below the output directory). Ordering: on the interprocedural CFG, from the node that opens the output no further fallible input/processing step may be reached (reads, rule application, encoding), and success is impossible without having written the encoded text in full (`write_all`-like sinks; buffered writers need a flush).",
"C04": "Every call in the crate that returns a `Result` (and every place an error is made) is a source; the analysis follows the value: it must reach a `?`, a return, a panic or an explicit report. `.ok()`, `unwrap_or*`, `let _ =`, `if let Ok`, filter_map over results, `flatten` and dropped results are violations unless the value is one of the listed absent-by-design cases. The process's exit status is checked from `main`.",
"C06": "For every rule kind: abstract document with one specification, matcher answering no, containers present. Unmarked: no path of the run may return Ok (decided on the return atoms and on CFG reachability of a successful return once the parents are handed out). Marked `?~`: Ok is reachable and there are no effects.",
"C07": "Per block one document with all its rules. Every effect is attributed to the rule key whose value it depends on; for two keys of the documented order no effect of the later one may reach (on the CFG, within the handling of the same element) an effect of the earlier one. Order of iteration over the document must not matter: keys are looked up, not iterated, between phases.",
"C09": "Per `_add` form: the comparison of the new name with the existing names (same kind, same parent) is forced to `equal`; no insertion may remain reachable and the run must fail. Forced to `different`, the insertion must exist. The names compared must be those of the elements of the very container inserted into, array elements included.",
"C10": "About 110 (level, key) pairs: abstract document `_modify: {key: opaque}`; the effects must be exactly one store of that value (through the conversion of that key only) in the attribute the key names; a must-happen run shows it happens for each matched element and for each key when all are given; no other attribute is written.",
"C14": "The loader is analysed as code over `Yaml` values: for each combination of kinds of two merged values the result is computed abstractly (union of keys, concatenation, parent's plain value stays, mismatch is an error); the recursion is unrolled over two include levels, path joins are checked by provenance (directory of the including file), and each included file's document must flow into the block that named it.",
"C15": "As C14 on the path sets: every path passed to the reading call inside include loading must flow, on every successful path, into the list makedeps writes; nothing (condition on content, dedup by something other than the path) may bypass it.",
"C18": "For every element kind a nested iteration proof (`Flow.prove`): device -> peripherals -> (clusters)* -> registers -> fields, each level visiting all elements (no dropping adapters, no early exit), reaching an output line; the line's text pieces are traced to the element's own attributes; the address is the sum of base address and all enclosing offsets (`sums`); derived peripherals resolve to their origin.",
"C19": "The same for interrupts, plus: the sort key of the printed order is the interrupt's number; no deduplication or map keyed by less than (number, name, peripheral) intervenes.",
"C20": "Each command is run from clap's parsed arguments with single option values forced (present/absent/variant). The effect named by the option (call, parser config field, formatting config) must depend on exactly that option; format selection is decided for each extension literal; unknown ones must end in an error.",
"C24": "Each rule is run with the comparisons of names answered: there is an element `DST`, one `SRC`, or not. The elements of the device are told apart by the site at which they were looked up (a marker in the access path), so a copy, its source and the element replaced are different abstract objects. For each attribute of a copy put into the device, the writes reaching the insertion (and those to its place afterwards) are collected over the interprocedural graph: the value must be that of the element named in the table (name given, own base address, own interrupts ...), of the rule, or, for all other attributes, no write may reach. References: with the comparison of `derivedFrom` answered yes, every peripheral (register) handed out gets the new reference in every pass of a loop that leaves none out and cannot be bypassed; collections of names looked for get the name of every element changed; with the answer no, nothing is changed. A peripheral taken out to be moved is put back. With the source answered missing, the run resumed from where the rule is read cannot succeed.",
"C25": "About 50 rule kinds with specification `A,B*` (and `A{B,Z}`, `?~A`): matcher answering no for all patterns -> no effect; yes for one of them -> all effects. The patterns handed to the glob library must be the comma-separated parts, verbatim, with unchanged builder options; the names compared must be unmodified names of elements of the addressed kind; no other text is ever compared.",
"C28": "Every read/write key, alone and in pairs, with and without values: the action stored, the usage of the enumeration built and that neither rule of a pair is lost (no early end of the iteration over the keys). Values: concrete documents give the exact name/number/description/default of what is built; number already taken, ill-formed entries and different widths must be refused. Usage: 6 x 6 accesses of field/register x 3 usages against a table. Existing enumerations: 7 situations x replace x access x usage, with length and usage of the existing ones answered as the situation says; expected verdict refuse/add/split/replace-that-one/replace-all. `_derivedFrom` and the automatic derivation modes.",
"C31": "For every rule kind the effects of the rule (those that vanish when it is removed from the document) must happen for each element handed out, loops must run to the end, and nothing between the device and the effect may leave elements out.",
"C32": "The same runs with `?~` in front of the specification, matcher answering yes.",
"C33": "About 130 (form, key) pairs of `_add`: the inserted object's attributes are read off the builder: exactly the given ones, from their own keys, name from the rule's key; nested lists element by element; must-happen.",
"C34": "Per form and level of `_delete`: matcher no -> every element stays (the predicates choosing what goes give up none); matcher yes -> every element of the addressed kind goes, others stay; nothing else changes; each specification of a list is applied.",
"C35": "Every (rule, key) position is given each wrong kind of value in turn: the run must not be able to succeed (return atoms, and CFG reachability after the entry is handed out), and the ill-typed value must have no effect.",
"C11": "28 documents (each rule in peripheral, cluster, register, register in cluster; `_strip`/`_strip_end` as text and list), the strip rules once with the pattern matching and once not. The effects of a rule are those that vanish with it. Each effect must be on a name attribute the rule concerns, and each such attribute must have one (its reaching every element is C31). Strip: the effect (drain, truncate, replace_range, split_off, or assignment of a part of the own name) takes off the right side, and the position it cuts at is a value for which the matcher of the text given (unchanged: `Glob::new` of that very text) was asked about exactly the part before (behind) that position of the *same* name - a number computed from the length of the pattern is not; the positions run up to one that depends on the name, and not from the end; without a match nothing is cut. Prefix/suffix: the name becomes the sequence [text, name] or [name, text], whichever way it is put together (insert_str, push_str, format!, +, concat). No effect comes again in a loop that hands out no other element, text or list entry.",
"C12": "Comparisons are found by what their operands are made of (address offsets, bit offset and width, widths, descriptions, lists of indices, lengths, dim blocks). The run is resumed at each of them with the answer `different` (a continuation analysis up the whole call path, path-sensitive in what follows): it must not be able to succeed. Every path from the rule to success passes the comparison, in loops for every element (no skipping adapters; the first may be left out as the others are compared with it), also when all options of the rule are given. The DimElement built: dim is the plain length, increment a difference of offsets (for one element that given, or size/8), indices from the names or not. Sorting by offset and taking the minimum lie on every path. Expansion: which summands and products the offsets stored are made of, range of the element loop, nothing left out between the expansion and the device.",
}
