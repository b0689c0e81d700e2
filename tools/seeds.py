"""The planted bugs: edits of the original source, a demonstration, and what they break."""
SEEDS = []
DEV, PER, REG, MOD = "src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs", "src/patch/mod.rs"
YAM, CON, CLI, DEP = "src/patch/yaml_ext.rs", "src/convert/convert_cli.rs", "src/cli.rs", "src/makedeps/makedeps_cli.rs"


def seed(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


seed("C06-child-wildcard", "C06", [(PER, """        let (rspec, ignore) = rcspec.spec();
        let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
""", """        let (rspec, mut ignore) = rcspec.spec();
        let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
        ignore |= rspec.contains('*');
""")],
     "a register rule whose specification contains a `*` wildcard and matches neither a register nor a cluster",
     "an unmatched wildcard register specification is silently accepted",
     """
svd = dev(per("P", 0x1000, reg("CR", 0, field("EN", 0))))
rc, root, err = patch(svd, "P:\\n  'TX*':\\n    EN:\\n      Off: [0, 'off']\\n")
check(rc != 0, "unmatched wildcard register spec accepted")
rc, root, err = patch(svd, "P:\\n  'C*':\\n    EN:\\n      Off: [0, 'off']\\n")
check(rc == 0 and root is not None, "matching wildcard spec refused")
""")

seed("C06-modify-fieldless", "C06", [(REG, """        let (fspec, ignore) = fspec.spec();
        let ftags = self.iter_fields(fspec).collect::<Vec<_>>();
        let field_builder = make_field(fmod, Some(rpath))?;""", """        let (fspec, ignore) = fspec.spec();
        let ignore = ignore || self.fields.is_none();
        let ftags = self.iter_fields(fspec).collect::<Vec<_>>();
        let field_builder = make_field(fmod, Some(rpath))?;""")],
     "`_modify` of a field in a register that has no fields at all",
     "the unmatched field specification is silently accepted",
     """
svd = dev(per("P", 0x1000, reg("CR", 0) + reg("SR", 4, field("EN", 0))))
rc, root, err = patch(svd, "P:\\n  CR:\\n    _modify:\\n      EN:\\n        description: x\\n")
check(rc != 0, "unmatched field spec accepted in a register without fields")
rc, root, err = patch(svd, "P:\\n  SR:\\n    _modify:\\n      EN:\\n        description: x\\n")
check(rc == 0 and get(root, "field", "EN").findtext("description") == "x", "modify")
""")

seed("C10-cpu-tcm", "C10", [(MOD, """.dtcm_present(cmod.get_bool("dtcmPresent")?)""", """.dtcm_present(cmod.get_bool("dtcmPresent")?.or(cmod.get_bool("itcmPresent")?))""")],
     "a cpu modification that gives itcmPresent but not dtcmPresent",
     "an attribute whose key is not given is changed",
     """
cpu = "<cpu><name>CM7</name><revision>r0p0</revision><endian>little</endian><mpuPresent>true</mpuPresent><fpuPresent>true</fpuPresent><nvicPrioBits>4</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig></cpu>"
rc, root, err = patch(dev(per("P", 0x1000, reg("CR", 0)), extra=cpu), "_modify:\\n  cpu:\\n    itcmPresent: true\\n")
check(rc == 0, err)
c = root.find("cpu")
check(c.findtext("itcmPresent") in ("true", "1"), "itcmPresent not set")
check(c.find("dtcmPresent") is None, "dtcmPresent changed")
""")

seed("C10-range-width", "C10", [(REG, """                            Some(WriteConstraint::Range(WriteConstraintRange {
                                min: a[0].i64()? as u64,
                                max: a[1].i64()? as u64,
                            }))""", """                            Some(WriteConstraint::Range(WriteConstraintRange {
                                min: a[0].i64()? as u64,
                                max: a[1].i64()? as u64 & ((1 << ftag.bit_width()) - 1),
                            }))"""),
                            (REG, """                    ftag.write_constraint = wc;
                }
                // For all other tags, just set the value
                ftag.modify_from(field_builder.clone(), VAL_LVL)?;""", """                    ftag.write_constraint = wc;
                }
                // For all other tags, just set the value
                let wc = ftag.write_constraint;
                ftag.modify_from(field_builder.clone(), VAL_LVL)?;
                ftag.write_constraint = wc;""")],
     "`_modify` of a field with a writeConstraint range whose maximum exceeds the field's old width (field widened by the same rule)",
     "the maximum is stored altered",
     """
svd = dev(per("P", 0x1000, reg("CR", 0, field("A", 0, 2))))
rc, root, err = patch(svd, "P:\\n  CR:\\n    _modify:\\n      A:\\n        bitWidth: 4\\n        writeConstraint: [1, 12]\\n")
check(rc == 0, err)
f = get(root, "field", "A")
check(f.findtext("writeConstraint/range/maximum") == "12" and f.findtext("writeConstraint/range/minimum") == "1", "range " + str(ET.tostring(f)))
""")

seed("C33-nested-dim", "C33", [(MOD, """                            .name(fname.str()?.into())
                            .build(VAL_LVL)?;
                        if let Some(dim) = make_dim_element(fadd)? {""", """                            .name(fname.str()?.into())
                            .build(VAL_LVL)?;
                        if let Some(dim) = make_dim_element(radd)? {""")],
     "an added register array with plain fields (or a plain register with a field array)",
     "fields of the added register take the dim attributes of the register instead of their own",
     """
svd = dev(per("P", 0x1000, reg("CR", 0)))
rc, root, err = patch(svd, "P:\\n  _add:\\n    'R%s':\\n      addressOffset: 16\\n      dim: 2\\n      dimIncrement: 4\\n      fields:\\n        A:\\n          bitOffset: 0\\n          bitWidth: 1\\n")
check(rc == 0, err)
check(get(root, "register", "R%s").findtext("dim") == "2", "dim of the register")
check(get(root, "field", "A").find("dim") is None, "field became an array")
""")

seed("C33-derived-group", "C33", [(MOD, """    if let Some(derived) = padd.get_str("derivedFrom")? {
        Ok(pnew.derived_from(Some(derived.into())))""", """    if let Some(derived) = padd.get_str("derivedFrom")? {
        Ok(pnew.derived_from(Some(derived.into())).group_name(None))""")],
     "an added peripheral that has both derivedFrom and groupName",
     "the given groupName is not stored",
     """
svd = dev(per("P", 0x1000, reg("CR", 0)))
rc, root, err = patch(svd, "_add:\\n  Q:\\n    derivedFrom: P\\n    baseAddress: 0x2000\\n    groupName: G\\n")
check(rc == 0, err)
q = get(root, "peripheral", "Q")
check(q.get("derivedFrom") == "P" and q.findtext("groupName") == "G", "attributes of the added peripheral")
""")

seed("C07-clear-after-modify", "C07", [(REG, """        // Handle field clearing
        for fspec in rmod.str_vec_iter("_clear")? {
            self.clear_field(fspec)
                .with_context(|| format!("Clearing contents of fields matched to `{fspec}`"))?;
        }

        // Handle modifications
        for (fspec, fmod) in rmod.hash_iter("_modify")? {
            let fspec = fspec.str()?;
            self.modify_field(fspec, fmod.hash()?, &rpath)
                .with_context(|| format!("Modifying fields matched to `{fspec}`"))?;
        }
""", """        // Handle modifications
        for (fspec, fmod) in rmod.hash_iter("_modify")? {
            let fspec = fspec.str()?;
            self.modify_field(fspec, fmod.hash()?, &rpath)
                .with_context(|| format!("Modifying fields matched to `{fspec}`"))?;
        }

        // Handle field clearing
        for fspec in rmod.str_vec_iter("_clear")? {
            self.clear_field(fspec)
                .with_context(|| format!("Clearing contents of fields matched to `{fspec}`"))?;
        }
""")],
     "one register block with both `_clear` and `_modify` of a write constraint",
     "_clear takes effect after _modify and erases what it set",
     """
svd = dev(per("P", 0x1000, reg("CR", 0, field("A", 0, 4))))
rc, root, err = patch(svd, "P:\\n  CR:\\n    _clear: A\\n    _modify:\\n      A:\\n        writeConstraint: [1, 2]\\n")
check(rc == 0, err)
check(get(root, "field", "A").findtext("writeConstraint/range/maximum") == "2", "the modification was lost")
""")

seed("C07-prefix-first", "C07", [(REG, """        // Handle strips
        for prefix in rmod.str_vec_iter("_strip")? {""", """        if let Some(prefix) = rmod.get_str("_prefix")? {
            self.add_prefix(prefix)
                .with_context(|| format!("Adding prefix `{prefix}` to field names"))?;
        }

        // Handle strips
        for prefix in rmod.str_vec_iter("_strip")? {"""), (REG, """        if let Some(prefix) = rmod.get_str("_prefix")? {
            self.add_prefix(prefix)
                .with_context(|| format!("Adding prefix `{prefix}` to field names"))?;
        }
        if let Some(suffix)""", """        if let Some(suffix)""")],
     "one register block with both `_strip` and `_prefix` where a field gets strippable by the prefix",
     "the prefix is added before names are stripped, and stripped again",
     """
svd = dev(per("P", 0x1000, reg("CR", 0, field("X", 0))))
rc, root, err = patch(svd, "P:\\n  CR:\\n    _strip: B_\\n    _prefix: B_\\n")
check(rc == 0, err)
check(names(root, "field") == ["B_X"], "fields " + str(names(root, "field")))
""")

seed("C09-cluster-array", "C09", [(PER, """        if self.clstrs().any(|c| c.name == cname) {""", """        if self.clstrs().any(|c| c.name == cname && c.is_single()) {""")],
     "adding a cluster whose name is that of an existing cluster array",
     "the duplicate is not refused and a second cluster of that name is inserted",
     """
c = cluster("C%s", 0, reg("R", 0), pre="<dim>2</dim><dimIncrement>8</dimIncrement>")
svd = dev(per("P", 0x1000, c))
rc, root, err = patch(svd, "P:\\n  _add:\\n    _clusters:\\n      'C%s':\\n        addressOffset: 32\\n        registers:\\n          Q:\\n            addressOffset: 0\\n")
check(rc != 0, "duplicate cluster accepted")
""")

seed("C09-field-array", "C09", [(REG, """        if self.get_field(fname).is_some() {""", """        if self.get_field(fname).is_some() && !fadd.contains_key(&Yaml::String("dim".into())) {""")],
     "adding a field array whose name equals that of an existing field",
     "the duplicate is not refused",
     """
f = field("A%s", 0, 1, "<dim>2</dim><dimIncrement>1</dimIncrement>").replace("<field><name>A%s</name><dim>2</dim><dimIncrement>1</dimIncrement>", "<field><dim>2</dim><dimIncrement>1</dimIncrement><name>A%s</name>")
svd = dev(per("P", 0x1000, reg("CR", 0, f)))
rc, root, err = patch(svd, "P:\\n  CR:\\n    _add:\\n      'A%s':\\n        bitOffset: 8\\n        bitWidth: 1\\n        dim: 2\\n        dimIncrement: 1\\n")
check(rc != 0, "duplicate field accepted")
""")

seed("C31-clear-derived-break", "C31", [(PER, """        for rtag in self.all_regs_mut().matched(rspec) {
            if rtag.derived_from.is_some() {
                continue;
            }""", """        for rtag in self.all_regs_mut().matched(rspec) {
            if rtag.derived_from.is_some() {
                break;
            }""")],
     "`_clear_fields` on registers of which one that is not the last is derived",
     "the registers after the derived one are not cleared",
     """
ev = "<enumeratedValues><enumeratedValue><name>X</name><value>0</value></enumeratedValue></enumeratedValues>"
fl = "<field><name>A</name><bitOffset>0</bitOffset><bitWidth>1</bitWidth>%s</field>" % ev
svd = dev(per("P", 0x1000, reg("R0", 0, fl) + '<register derivedFrom="R0"><name>R1</name><addressOffset>4</addressOffset></register>' + reg("R2", 8, fl)))
rc, root, err = patch(svd, "P:\\n  _clear_fields: '*'\\n")
check(rc == 0, err)
check(list(root.iter("enumeratedValues")) == [], "enumeratedValues left")
""")

seed("C31-mwv-readonly", "C31", [(REG, """            ftag.modified_write_values = if mwv == ModifiedWriteValues::Modify {""", """            set_any = true;
            if ftag.access == Some(Access::ReadOnly) {
                break;
            }
            ftag.modified_write_values = if mwv == ModifiedWriteValues::Modify {""")],
     "a `_W1C`-style rule whose specification matches several fields of which one that is not the last is read-only",
     "the fields after the read-only one do not get the modifiedWriteValues",
     """
svd = dev(per("P", 0x1000, reg("CR", 0, field("A0", 0) + field("A1", 1, 1, "<access>read-only</access>").replace("<access>read-only</access><bitOffset>1</bitOffset><bitWidth>1</bitWidth>", "<bitOffset>1</bitOffset><bitWidth>1</bitWidth><access>read-only</access>") + field("A2", 2))))
rc, root, err = patch(svd, "P:\\n  CR:\\n    'A*':\\n      _W1C: {}\\n")
check(rc == 0, err)
check(get(root, "field", "A2").findtext("modifiedWriteValues") == "oneToClear", "A2 not changed")
""")

seed("C32-optional-modify", "C32", [(REG, """        } else {
            for ftag in ftags {
                modify_dim_element(ftag, &dim)?;""", """        } else {
            for ftag in ftags
                .into_iter()
                .filter(|f| !ignore || f.derived_from.is_none())
            {
                modify_dim_element(ftag, &dim)?;""")],
     "an optional `_modify` of a derived field",
     "the optional rule is not applied although it matches",
     """
fl = field("A", 0) + '<field derivedFrom="A"><name>B</name><bitOffset>1</bitOffset><bitWidth>1</bitWidth></field>'
svd = dev(per("P", 0x1000, reg("CR", 0, fl)))
for m in ("", "?~"):
    rc, root, err = patch(svd, "P:\\n  CR:\\n    _modify:\\n      '%sB':\\n        description: x\\n" % m)
    check(rc == 0, err)
    check(get(root, "field", "B").findtext("description") == "x", "B not modified with marker %r" % m)
""")

seed("C32-optional-clusters", "C32", [(PER, """        for ctag in self.iter_clusters(cspec) {
            ctag.process(cmod, bpath, config)""", """        for ctag in self.iter_clusters(cspec).take(if ignore { 1 } else { usize::MAX }) {
            ctag.process(cmod, bpath, config)""")],
     "an optional `_clusters` rule that matches more than one cluster",
     "only the first matching cluster is processed",
     """
svd = dev(per("P", 0x1000, cluster("C0", 0, reg("R", 0)) + cluster("C1", 16, reg("R", 0))))
rc, root, err = patch(svd, "P:\\n  _clusters:\\n    '?~C*':\\n      _prefix: X\\n")
check(rc == 0, err)
check(names(root, "register") == ["XR", "XR"], "registers " + str(names(root, "register")))
""")

seed("C04-buffered", "C04", [(CON, """    File::create(out_path)?.write_all(output.as_bytes())?;
""", """    let mut out = std::io::BufWriter::new(File::create(out_path)?);
    out.write_all(output.as_bytes())?;
""")],
     "writing the converted file fails (a full disk) and the output is smaller than the buffer",
     "the failure to write the output is lost and convert reports success",
     """
svd = dev(per("P", 0x1000, reg("CR", 0)))
rc, out, so, se = tool(["convert", "--output-format", "json", "in.svd", "out.json"], {"in.svd": svd}, ["out.json"])
check(rc == 0 and '"CR"' in out["out.json"], "convert: " + se)
rc, out, so, se = tool(["convert", "--output-format", "json", "in.svd", "/dev/full"], {"in.svd": svd})
check(rc != 0, "the output could not be written, but convert succeeded")
""")

seed("C04-broken-include", "C04", [(MOD, """        let mut docs = YamlLoader::load_from_str(&contents)?;
        if docs""", """        let mut docs = YamlLoader::load_from_str(&contents).unwrap_or_default();
        if docs""")],
     "an included file that is not valid YAML",
     "the include is dropped silently and the run succeeds",
     """
svd = dev(per("P", 0x1000, reg("CR", 0)))
rc, root, err = patch(svd, "P:\\n  _include:\\n    - inc.yaml\\n", {"inc.yaml": "CR:\\n  _add:\\n    A:\\n      bitOffset: 0\\n      bitWidth: 1\\n"})
check(rc == 0 and names(root, "field") == ["A"], "include: " + err)
rc, root, err = patch(svd, "P:\\n  _include:\\n    - inc.yaml\\n", {"inc.yaml": "CR: [1\\n"})
check(rc != 0, "broken include accepted")
""")

seed("C35-bool-number", "C35", [(YAM, """            1 => Some(true),
            _ => None,
        },""", """            _ => Some(true),
        },""")],
     "a number other than 0 and 1 where a boolean belongs",
     "the malformed boolean is taken as true",
     """
cpu = "<cpu><name>CM7</name><revision>r0p0</revision><endian>little</endian><mpuPresent>false</mpuPresent><fpuPresent>false</fpuPresent><nvicPrioBits>4</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig></cpu>"
for v, ok in (("1", True), ("true", True), ("2", False)):
    rc, root, err = patch(dev(per("P", 0x1000, reg("CR", 0)), extra=cpu), "_modify:\\n  cpu:\\n    fpuPresent: %s\\n" % v)
    check((rc == 0) == ok, "fpuPresent: " + v)
""")

seed("C35-string-list", "C35", [(YAM, """                if y.iter().all(|x| x.as_str().is_some()) {""", """                if y.iter().all(|x| x.as_str().or(x.as_i64().map(|_| "")).is_some()) {""")],
     "a list of names (`_delete`, `_strip`, `_clear`, `_include`) that holds a number",
     "the items that are not names are skipped and the run succeeds",
     """
svd = dev(per("P", 0x1000, reg("R1", 0) + reg("R2", 4)))
rc, root, err = patch(svd, "P:\\n  _delete:\\n    _registers: [R1]\\n")
check(rc == 0 and names(root, "register") == ["R2"], "delete: " + err)
rc, root, err = patch(svd, "P:\\n  _delete:\\n    _registers: [R1, 7]\\n")
check(rc != 0, "a list with a number accepted")
""")

seed("C35-reset-value", "C35", [(MOD, """        .reset_value(h.get_u64("resetValue")?)
        .reset_mask(h.get_u64("resetMask")?))""", """        .reset_value(h.get_u64("resetValue").ok().flatten())
        .reset_mask(h.get_u64("resetMask")?))""")],
     "a reset value that is not a number in the attributes of an added register or the default properties of a peripheral",
     "the malformed value is treated as absent",
     """
svd = dev(per("P", 0x1000, reg("R1", 0)))
for w, ok in (("0x10", True), ("0x1z", False)):
    rc, root, err = patch(svd, "P:\\n  _add:\\n    Q:\\n      addressOffset: 4\\n      resetValue: %s\\n" % w)
    check((rc == 0) == ok, "resetValue: " + w)
""")

seed("C01-patch-early", "C01", [(MOD, """    let mut svd_out = process_reader(File::open(svdpath)?, &doc, &encoder_config, config)?;
    std::io::copy(&mut svd_out, &mut File::create(svdpath_out)?)?;
""", """    let svd = File::open(svdpath)?;
    let mut out = File::create(svdpath_out)?;
    let mut svd_out = process_reader(svd, &doc, &encoder_config, config)?;
    std::io::copy(&mut svd_out, &mut out)?;
""")],
     "a patch that fails while an output file of an earlier run exists",
     "the existing output is truncated although the run fails",
     """
svd = dev(per("P", 0x1000, reg("R1", 0)))
rc, out, so, se = tool(["patch", "p.yaml", "o.svd"], {"in.svd": svd, "p.yaml": '_svd: in.svd\\nP:\\n  _modify:\\n    R1:\\n      description: x\\n', "o.svd": "old"}, ["o.svd"])
check(rc == 0 and out["o.svd"].startswith("<?xml"), "patch: " + se)
rc, out, so, se = tool(["patch", "p.yaml", "o.svd"], {"in.svd": svd, "p.yaml": '_svd: in.svd\\nQ:\\n  _delete: R1\\n', "o.svd": "old"}, ["o.svd"])
check(rc != 0 and out["o.svd"] == "old", "the output was touched by a failed run")
""")

seed("C01-deps-early", "C01", [(DEP, """            let deps = yaml_includes(root)?;

            write_file(deps_file, deps)?;
            Ok(())""", """            write_file(deps_file, vec![])?;
            let deps = yaml_includes(root)?;
            if !deps.is_empty() {
                write_file(deps_file, deps)?;
            }
            Ok(())""")],
     "makedeps on a patch with a missing include while a dependency file of an earlier run exists",
     "the existing dependency file is overwritten although the run fails",
     """
rc, out, so, se = tool(["makedeps", "p.yaml", "o.d"], {"p.yaml": "_include: [a.yaml]\\n", "a.yaml": "P: {}\\n", "o.d": "old"}, ["o.d"])
check(rc == 0 and "a.yaml" in out["o.d"], "makedeps: " + se)
rc, out, so, se = tool(["makedeps", "p.yaml", "o.d"], {"p.yaml": "_include: [b.yaml]\\n", "o.d": "old"}, ["o.d"])
check(rc != 0 and out["o.d"] == "old", "the dependency file was touched by a failed run")
""")

seed("C20-expand-xml", "C20", [(CON, """    let device = if parser_config.expand {""", """    let device = if parser_config.expand && input_format == InputFormat::Xml {""")],
     "convert --expand of a YAML or JSON input",
     "the option is ignored",
     """
svd = dev(per("P", 0x1000, reg("R1", 0)) + per("Q", 0x2000, derived="P"))
rc, out, so, se = tool(["convert", "in.svd", "a.json"], {"in.svd": svd}, ["a.json"])
check(rc == 0 and out["a.json"].count('"R1"') == 1, se)
rc, out, so, se = tool(["convert", "--expand", "in.json", "b.json"], {"in.json": out["a.json"]}, ["b.json"])
check(rc == 0 and out["b.json"].count('"R1"') == 2, "not expanded")
""")

seed("C20-validate-derived", "C20", [(MOD, """    dev.validate_all(config.post_validate)?;
""", """    if dev.peripherals.iter().all(|p| p.derived_from.is_none()) {
        dev.validate_all(config.post_validate)?;
    }
""")],
     "patch --post-validate on a device that has a derived peripheral and becomes invalid by the patch",
     "the result is not validated",
     """
svd = dev(per("P", 0x1000, reg("R1", 0, field("A", 0))) + per("Q", 0x2000, derived="P"))
yaml = "P:\\n  _add:\\n    'R 2':\\n      addressOffset: 8\\n"
rc, root, err = patch(svd, yaml)
check(rc == 0, err)
rc, root, err = patch(svd, yaml, args=["--post-validate"])
check(rc != 0, "an invalid device passed --post-validate: " + err)
""")

seed("C14-joined-list", "C14", [(MOD, "                                a.extend(val.clone());", "                                a.extend(val.iter().filter(|v| v.as_str().is_some()).cloned());")],
     "an included file whose list for a key the including file has too holds something other than names (an address block, a number)",
     "those entries of the included list are lost",
     """
rc, root, err = patch(dev(per("P", 0x1000, reg("R1", 0))), "_include: [a.yaml]\\n_modify:\\n  P:\\n    addressBlocks:\\n      - {offset: 0, size: 16, usage: registers}\\n",
                      files={"a.yaml": "_modify:\\n  P:\\n    addressBlocks:\\n      - {offset: 32, size: 8, usage: registers}\\n"})
check(rc == 0, err)
check(len(list(get(root, "peripheral", "P").iter("addressBlock"))) == 2, "an address block was lost")
""")

seed("C14-nested-relative", "C14", [(MOD, """        let ypath = path.to_str().unwrap().to_yaml();
        child.insert""", """        let ypath = if relpath.starts_with("..") {
            self_path.join(relpath).to_str().unwrap().to_yaml()
        } else {
            path.to_str().unwrap().to_yaml()
        };
        child.insert""")],
     "an include of a file in a parent directory that itself includes a file next to it",
     "the nested file is looked for in the wrong directory",
     """
import os
rc, out, so, se = tool(["makedeps", "dev/p.yaml", "o.d"], {"dev/p.yaml": "_include: [../com/a.yaml]\\n", "com/a.yaml": "_include: [b.yaml]\\n", "com/b.yaml": "P:\\n  _delete: A\\n"}, ["o.d"])
check(rc == 0 and "com/b.yaml" in (out["o.d"] or ""), "nested include not found: " + se[:200])
""")

seed("C14-string-kept", "C14", [(MOD, """                            s2 if matches!(s2, Yaml::String(_)) => {
                                println!""", """                            s2 if matches!(s2, Yaml::String(_)) => {
                                if s.as_str().map_or(false, |t| t.is_empty()) {
                                    *s = s2.clone();
                                    continue;
                                }
                                println!""")],
     "the including file sets an attribute to the empty string which the included file gives a text",
     "the included value overrides that of the including file",
     """
rc, root, err = patch(dev(per("P", 0x1000, reg("R1", 0, extra="<description>x</description>"))), "_include: [a.yaml]\\nP:\\n  _modify:\\n    R1:\\n      description: ''\\n",
                      files={"a.yaml": "P:\\n  _modify:\\n    R1:\\n      description: text\\n"})
check(rc == 0, err)
check((get(root, "register", "R1").findtext("description") or "") == "", "the included value was used")
""")

seed("C15-skip-same", "C15", [(DEP, """    for dep in deps {
""", """    for dep in deps {
        if dep.file_stem() == Path::new(file_name.trim_end_matches(':')).file_stem() {
            continue; // the target itself
        }
""")],
     "an included file with the same stem as the dependency file",
     "it is missing from the dependency list",
     """
rc, out, so, se = tool(["makedeps", "p.yaml", "stm.d"], {"p.yaml": "_include: [inc/stm.yaml]\\n", "inc/stm.yaml": "P:\\n  _delete: A\\n"}, ["stm.d"])
check(rc == 0 and "stm.yaml" in (out["stm.d"] or ""), "not listed: %s" % out)
""")

MMAP, ILIST, ICLI = "src/mmap/mmap_cli.rs", "src/interrupts/interrupt_list.rs", "src/interrupts/interrupts_cli.rs"

seed("C18-array-cluster-base", "C18", [(MMAP, """                                mmap.push(text);
                                get_registers(caddr, Some(&c.children), &idx, mmap);""", """                                mmap.push(text);
                                get_registers(addr_of(base_address, c), Some(&c.children), &idx, mmap);"""),
    (MMAP, "fn get_fields(", """/// Absolute address of a cluster
fn addr_of(base_address: u64, c: &svd::ClusterInfo) -> u64 {
    base_address + c.address_offset as u64
}

fn get_fields(""")],
     "a cluster array with registers",
     "the registers of every element of the array are shown at the addresses of the first",
     """
svd = dev(per("P", 0x1000, cluster("C%s", 0x10, reg("R", 4), pre="<dim>2</dim><dimIncrement>0x20</dimIncrement>")))
rc, out, so, se = tool(["mmap", "a.svd"], {"a.svd": svd})
check(rc == 0 and so.count("0x1014 ") == 1 and so.count("0x1034 ") == 1, so)
""")

seed("C18-once-per-line", "C18", [(MMAP, """            i.value, i.name, peripheral.name
        );
        mmap.push(text);""", """            i.value, i.name, peripheral.name
        );
        if mmap.last() == Some(&text) {
            continue;
        }
        mmap.push(text);"""), (MMAP, """    mmap.sort();
""", """    mmap.sort();
    mmap.dedup_by(|a, b| a.starts_with("INTERRUPT") && a.split(':').next() == b.split(':').next());
""")],
     "two interrupts with the same number",
     "only one of them is listed",
     """
svd = dev(per("A", 0x1000, reg("R", 0), ints=interrupt("IA", 7)), per("B", 0x2000, reg("R", 0), ints=interrupt("IB", 7)))
rc, out, so, se = tool(["mmap", "a.svd"], {"a.svd": svd})
check(rc == 0 and "IA (A)" in so and "IB (B)" in so, so)
""")

seed("C18-derived-fields", "C18", [(MMAP, """                            mmap.push(text);
                            get_fields(r, &addr, mmap);""", """                            mmap.push(text);
                            if derived.is_empty() {
                                get_fields(r, &addr, mmap);
                            }""")],
     "a register derived from another that has fields of its own",
     "its fields are not listed",
     """
svd = dev(per("P", 0x1000, reg("R", 0, field("F", 0)) + '<register derivedFrom="R"><name>S</name><addressOffset>4</addressOffset><fields>%s</fields></register>' % field("G", 3)))
rc, out, so, se = tool(["mmap", "a.svd"], {"a.svd": svd})
check(rc == 0 and " G:" in so, so)
""")

seed("C19-shared", "C19", [(ILIST, """        interrupt_list.sort_by_key(|i| i.interrupt.value);
""", """        interrupt_list.sort_by_key(|i| i.interrupt.value);
        interrupt_list.dedup_by(|a, b| a.interrupt == b.interrupt);
""")],
     "an interrupt that two peripherals declare identically",
     "it is listed for the first of them only",
     """
svd = dev(per("A", 0x1000, reg("R", 0), ints=interrupt("I", 7)), per("B", 0x2000, reg("R", 0), ints=interrupt("I", 7)))
rc, out, so, se = tool(["interrupts", "a.svd"], {"a.svd": svd})
check(rc == 0 and "(in A)" in so and "(in B)" in so, so)
""")

seed("C19-per-peripheral", "C19", [(ILIST, """        let mut interrupt_list: Vec<_> = peripherals
            .flat_map(|p| {
                let peripheral = p.name;
                p.interrupt.into_iter().map(move |i| InterruptWithPeriph {""", """        let mut interrupt_list: Vec<_> = peripherals
            .flat_map(|p| {
                let peripheral = p.name;
                let mut interrupts = p.interrupt;
                interrupts.sort_by_key(|i| i.value);
                interrupts.into_iter().map(move |i| InterruptWithPeriph {"""), (ILIST, """        interrupt_list.sort_by_key(|i| i.interrupt.value);
""", """        // each peripheral's interrupts are sorted: order the peripherals
        interrupt_list.sort_by_key(|i| i.interrupt.value / 32);
""")],
     "two peripherals whose interrupt numbers interleave",
     "the list is not in the order of the numbers",
     """
svd = dev(per("A", 0x1000, reg("R", 0), ints=interrupt("I1", 1) + interrupt("I5", 5)), per("B", 0x2000, reg("R", 0), ints=interrupt("I3", 3)))
rc, out, so, se = tool(["interrupts", "a.svd"], {"a.svd": svd})
check(rc == 0 and so.index("I1") < so.index("I3") < so.index("I5"), so)
""")

ITER = "src/patch/iterators.rs"

seed("C34-derived-field", "C34", [(REG, "            fields.retain(|f| !(matchname(&f.name, fspec)));", """            // a field others are derived from has to stay
            let bases: std::collections::HashSet<String> =
                fields.iter().filter_map(|f| f.derived_from.clone()).collect();
            fields.retain(|f| bases.contains(&f.name) || !(matchname(&f.name, fspec)));""")],
     "`_delete` of a field another field of the register is derived from",
     "the field stays though the specification matches it, and no error is reported",
     """
svd = dev(per("P", 0x1000, reg("R", 0, field("A", 0) + '<field derivedFrom="A"><name>B</name><bitOffset>4</bitOffset><bitWidth>1</bitWidth></field>' + field("C", 8))))
rc, root, err = patch(svd, "P:\\n  R:\\n    _delete: [A, B]\\n")
check(rc == 0, err)
check([f.findtext("name") for f in root.iter("field")] == ["C"], "fields left")
""")

seed("C34-register-array", "C34", [(PER, "                |rc| !matches!(rc, RegisterCluster::Register(r) if matchname(&r.name, rspec)),", "                |rc| !matches!(rc, RegisterCluster::Register(Register::Single(r)) if matchname(&r.name, rspec)),")],
     "`_delete: {_registers: ...}` matching a register array",
     "the array stays",
     """
arr = reg("R%s", 0).replace("<register>", "<register><dim>2</dim><dimIncrement>4</dimIncrement>")
svd = dev(per("P", 0x1000, arr + reg("X", 0x20)))
rc, root, err = patch(svd, "P:\\n  _delete:\\n    _registers: 'R*'\\n")
check(rc == 0, err)
check([r.findtext("name") for r in root.iter("register")] == ["X"], "not deleted")
""")

seed("C25-array-suffix", "C25", [(ITER, "            .find(|next| matchname(next.name(), self.spec))", "            .find(|next| matchname(next.name().trim_end_matches(\"[%s]\"), self.spec))")],
     "a rule for `R` in a device that has both a register R and an array R[%s]",
     "the rule also changes the array",
     """
arr = reg("R[%s]", 0x10).replace("<register>", "<register><dim>2</dim><dimIncrement>4</dimIncrement>")
svd = dev(per("P", 0x1000, reg("R", 0) + arr))
rc, root, err = patch(svd, "P:\\n  _modify:\\n    R:\\n      description: new\\n")
check(rc == 0, err)
check([r.findtext("description") for r in root.iter("register")].count("new") == 1, "the array was changed as well")
""")

seed("C25-case", "C25", [(MOD, """        .backslash_escape(true)
        .build()""", """        .case_insensitive(cfg!(not(test)))
        .backslash_escape(true)
        .build()""")],
     "names that differ in case only",
     "a rule changes elements whose names its specification does not cover",
     """
svd = dev(per("P", 0x1000, reg("SR", 0) + reg("sr", 4)))
rc, root, err = patch(svd, "P:\\n  _modify:\\n    SR:\\n      description: new\\n")
check(rc == 0, err)
check([r.findtext("description") for r in root.iter("register")].count("new") == 1, "sr was changed as well")
""")

seed("C25-expand-dim1", "C25", [(PER, """                    RegisterCluster::Register(Register::Array(r, d))
                        if matchname(&r.name, rspec) =>""", """                    RegisterCluster::Register(Register::Array(r, d))
                        if matchname(&r.name, rspec) || d.dim < 2 =>""")],
     "`_expand_array` in a peripheral that also has an array of a single element",
     "that array is expanded as well",
     """
arr = lambda n, k, o: reg(n + "%s", o).replace("<register>", "<register><dim>%d</dim><dimIncrement>4</dimIncrement>" % k)
svd = dev(per("P", 0x1000, arr("R", 2, 0) + arr("X", 1, 0x20)))
rc, root, err = patch(svd, "P:\\n  _expand_array:\\n    'R*': {}\\n")
check(rc == 0, err)
check([r.findtext("name") for r in root.iter("register")] == ["R0", "R1", "X%s"], "X expanded")
""")

seed("C28-explicit-rw", "C28", [(REG, "                    [v] if v.usage == Some(usage) || v.usage == Some(Usage::ReadWrite) => {", "                    [v] if v.usage == Some(usage) => {")],
     "a `_read` rule for a field whose enumeration is there with the explicit usage read-write",
     "a second enumeration for reading is added without `_replace_enum` instead of an error",
     """
EVS = "<enumeratedValues>%s<enumeratedValue><name>Q</name><value>1</value></enumeratedValue></enumeratedValues>"
f = lambda u: "<field><name>F</name><bitOffset>0</bitOffset><bitWidth>1</bitWidth>" + EVS % u + "</field>"
y = "P:\\n  R:\\n    F:\\n      _read:\\n        A: [0, a]\\n"
rc, root, err = patch(dev(per("P", 0x1000, reg("R", 0, f("<usage>read-write</usage>")))), y)
check(rc != 0, "a second enumeration for reading was accepted")
rc, root, err = patch(dev(per("P", 0x1000, reg("R", 0, f("<usage>write</usage>")))), y)
check(rc == 0 and len(get(root, "field", "F").findall("enumeratedValues")) == 2, err)
""")

seed("C28-register-access", "C28", [(REG, """            for ftag in self.iter_fields(fspec) {
                let access = ftag.access.or(reg_access).unwrap_or_default();
                let checked_usage = check_usage(access, usage)
                    .with_context(|| format!("In field {}", ftag.name))?;
                if checked_usage != orig_usage {""", """            for ftag in self.iter_fields(fspec) {
                let access = ftag.access.unwrap_or_default();
                let checked_usage = check_usage(access, usage)
                    .with_context(|| format!("In field {}", ftag.name))?;
                if checked_usage != orig_usage {""")],
     "`_derivedFrom` for a field that takes its access from its register",
     "the use is taken from the default access instead of that of the register: values for writing are given to a field that cannot be written",
     """
src = "<field><name>S</name><bitOffset>8</bitOffset><bitWidth>1</bitWidth><access>write-only</access><enumeratedValues><name>SV</name><usage>write</usage><enumeratedValue><name>Q</name><value>1</value></enumeratedValue></enumeratedValues></field>"
r = reg("R", 0, field("F", 0) + src).replace("<size>32</size>", "<size>32</size><access>%s</access>")
y = "P:\\n  R:\\n    F:\\n      _write:\\n        _derivedFrom: SV\\n"
rc, root, err = patch(dev(per("P", 0x1000, r % "read-only")), y)
check(rc != 0, "write values for a read-only field accepted")
rc, root, err = patch(dev(per("P", 0x1000, r % "write-only")), y)
check(rc == 0, err)
""")

seed("C28-derive-ambiguous", "C28", [(REG, """                .filter(|e| e.name.as_deref() == Some(d));
            let orig_usage""", """                .filter(|e| e.name.as_deref() == Some(d))
                .dedup_by(|a, b| a.usage() == b.usage());
            let orig_usage""")],
     "`_derivedFrom` naming an enumeration that two fields of the register have, for the same use",
     "the ambiguous name is accepted silently",
     """
ev = "<enumeratedValues><name>SV</name>%s<enumeratedValue><name>Q</name><value>1</value></enumeratedValue></enumeratedValues>"
f = lambda n, o, e: "<field><name>%s</name><bitOffset>%d</bitOffset><bitWidth>1</bitWidth>%s</field>" % (n, o, e)
y = "P:\\n  R:\\n    F:\\n      _derivedFrom: SV\\n"
rc, root, err = patch(dev(per("P", 0x1000, reg("R", 0, f("F", 0, "") + f("S", 1, ev % "") + f("T", 2, ev % "")))), y)
check(rc != 0, "ambiguous name accepted")
rc, root, err = patch(dev(per("P", 0x1000, reg("R", 0, f("F", 0, "") + f("S", 1, ev % "")))), y)
check(rc == 0, err)
""")

seed("C28-once-kept", "C28", [(REG, "                        (Access::ReadWrite | Access::ReadWriteOnce, Usage::Write) => {", "                        (Access::ReadWrite, Usage::Write) => {")],
     "a `_write` rule under `_replace_enum` for a field of access read-writeOnce that has an enumeration without usage",
     "the values for reading are lost",
     """
f = "<field><name>F</name><bitOffset>0</bitOffset><bitWidth>1</bitWidth><access>%s</access><enumeratedValues><enumeratedValue><name>Q</name><value>1</value></enumeratedValue></enumeratedValues></field>"
for a in ("read-write", "read-writeOnce"):
    rc, root, err = patch(dev(per("P", 0x1000, reg("R", 0, f % a))), "P:\\n  R:\\n    F:\\n      _write:\\n        _replace_enum:\\n          A: [0, a]\\n")
    check(rc == 0, err)
    check(sorted(e.findtext("usage") for e in get(root, "field", "F").findall("enumeratedValues")) == ["read", "write"], a)
""")

seed("C11-suffix-alternate", "C11", [(PER, """                dname.push_str(suffix);
            }
            if let Some(name) = rtag.alternate_register.as_mut() {
                name.push_str(suffix);
            }
""", """                dname.push_str(suffix);
            }
""")],
     "`_suffix` in a peripheral with a register that has an alternateRegister",
     "the reference to the alternate register keeps the old name, which no register has any more",
     """svd = dev(per("P", 0x40000000, reg("A", 0) + reg("B", 0, extra="<alternateRegister>A</alternateRegister>")))
rc, root, err = patch(svd, "P:\\n  _suffix: _X\\n")
check(rc == 0 and root is not None, "patch failed: " + err)
check(sorted(r.findtext("name") for r in root.iter("register")) == ["A_X", "B_X"], "names")
check([r.findtext("alternateRegister") for r in root.iter("register") if r.findtext("name") == "B_X"] == ["A_X"], "alternateRegister")
""")

seed("C11-prefix-present", "C11", [(REG, """            ftag.name.insert_str(0, prefix);
""", """            if !ftag.name.starts_with(prefix) {
                ftag.name.insert_str(0, prefix);
            }
""")],
     "a `_prefix` that a field's name already begins with",
     "that field is not renamed, so the names of the register no longer have the prefix put before them",
     """svd = dev(per("P", 0x40000000, reg("R", 0, field("A", 0) + field("AB", 1))))
rc, root, err = patch(svd, "P:\\n  R:\\n    _prefix: A\\n")
check(rc == 0 and root is not None, "patch failed: " + err)
check(sorted(f.findtext("name") for f in root.iter("field")) == ["AA", "AAB"], "names: %s" % [f.findtext("name") for f in root.iter("field")])
""")

seed("C11-cluster-strip-end", "C11", [(PER, """        for suffix in cmod.str_vec_iter("_strip_end")? {
            self.strip_end(suffix)
""", """        for suffix in cmod.str_vec_iter("_strip_end")? {
            self.strip_end(suffix.trim_end_matches('_'))
""")],
     "a `_strip_end` in a cluster whose pattern ends in `_`",
     "the pattern applied is another one than the one given: names that end in it are left, others are cut",
     """svd = dev(per("P", 0x40000000, cluster("C", 0, reg("A_X_", 0) + reg("B_X", 4))))
rc, root, err = patch(svd, "P:\\n  _clusters:\\n    C:\\n      _strip_end: _X_\\n")
check(rc == 0 and root is not None, "patch failed: " + err)
check(sorted(r.findtext("name") for r in root.iter("register")) == ["A", "B_X"], "names: %s" % [r.findtext("name") for r in root.iter("register")])
""")

seed("C11-strip-headers", "C11", [(PER, """            if let Some(dname) = ctag.header_struct_name.as_mut() {
                strip_name_start(dname, &glob);
            }
            if let Some(name) = ctag.alternate_cluster.as_mut() {
                strip_name_start(name, &glob);
            }
""", """            if let Some(dname) = ctag.header_struct_name.as_mut() {
                strip_name_start(dname, &glob);
            } else if let Some(name) = ctag.alternate_cluster.as_mut() {
                strip_name_start(name, &glob);
            }
""")],
     "`_strip` in a peripheral with a cluster that has both a headerStructName and an alternateCluster",
     "the reference to the alternate cluster keeps the beginning that the clusters' names have lost",
     """svd = dev(per("P", 0x40000000, cluster("X_A", 0, reg("R", 0)) + cluster("X_B", 0, reg("R", 0), extra="<alternateCluster>X_A</alternateCluster><headerStructName>X_H</headerStructName>")))
rc, root, err = patch(svd, "P:\\n  _strip: X_\\n")
check(rc == 0 and root is not None, "patch failed: " + err)
b = [c for c in root.iter("cluster") if c.findtext("name") == "B"]
check(len(b) == 1 and b[0].findtext("alternateCluster") == "A" and b[0].findtext("headerStructName") == "H", "cluster")
""")

seed("C12-increment-sum", "C12", [(MOD, """    let mut it = offsets.windows(2);
    while let Some(&[o1, o2]) = it.next() {
        if o2 - o1 != dim_increment {
            return false;
        }
    }
    true""", """    // equally spaced elements span (n - 1) increments
    match (offsets.first(), offsets.last()) {
        (Some(o1), Some(o2)) => o2 - o1 == dim_increment * (offsets.len() as u32 - 1),
        _ => true,
    }""")],
     "at least four elements whose inner distances differ while the span is a multiple of the first distance",
     "elements that are not equally spaced are collected; the middle ones move",
     """
y = "P:\\n  _array:\\n    R*: {}\\n"
svd = lambda offs: dev(per("P", 0x1000, "".join(reg("R%d" % i, o) for i, o in enumerate(offs))))
rc, root, err = patch(svd((0, 4, 12, 12 + 0)), y) if False else patch(svd((0, 4, 6, 12)), y)
check(rc != 0, "unequally spaced registers collected")
rc, root, err = patch(svd((0, 4, 8, 12)), y)
check(rc == 0 and get(root, "register", "R%s").findtext("dim") == "4", err)
""")

seed("C12-mask-xor", "C12", [(REG, """                mask |= (!0 >> (64 - ftag.bit_range.width)) << ftag.bit_range.offset;""", """                mask |= 1u64 << (ftag.bit_range.offset + ftag.bit_range.width - 1);""")],
     "registers whose fields end at the same bits but begin at different ones",
     "registers with different bit masks are collected into an array; the fields of all but the first are lost",
     """
y = "P:\\n  _array:\\n    R*: {}\\n"
svd = lambda a, b: dev(per("P", 0x1000, reg("R0", 0, field("A", *a)) + reg("R1", 4, field("A", *b))))
rc, root, err = patch(svd((0, 8), (4, 4)), y)
check(rc != 0, "registers with different bit masks collected")
rc, root, err = patch(svd((0, 8), (0, 8)), y)
check(rc == 0, err)
""")

seed("C12-cluster-index", "C12", [(PER, "                if dim_index != new_dim_index {", "                if !new_dim_index.iter().all(|i| dim_index.contains(i)) {")],
     "two register groups of a cluster with the same indices in a different order of addresses",
     "the registers of different indices are paired",
     """
y = "P:\\n  _cluster:\\n    N%s:\\n      A*: {}\\n      B*: {}\\n"
svd = lambda b: dev(per("P", 0x1000, reg("A0", 0) + reg("A1", 8) + reg("B%d" % b[0], 4) + reg("B%d" % b[1], 12)))
rc, root, err = patch(svd((1, 0)), y)
check(rc != 0, "registers of different indices paired")
rc, root, err = patch(svd((0, 1)), y)
check(rc == 0 and get(root, "cluster", "N%s") is not None, err)
""")

seed("C12-expand-nested", "C12", [(PER, "                                cluster.address_offset += n_dim * dim.dim_increment;", "                                cluster.address_offset += n_dim * dim.dim_increment / dim.dim;")],
     "`_expand_cluster` of a cluster array that contains a cluster",
     "the nested clusters of all elements but the first get wrong offsets",
     """
inner = cluster("IN", 8, reg("X", 0))
svd = dev(per("P", 0x1000, cluster("C%s", 0, reg("R", 0) + inner, pre="<dim>2</dim><dimIncrement>0x20</dimIncrement>")))
rc, root, err = patch(svd, "P:\\n  _expand_cluster: [C*]\\n")
check(rc == 0, err)
check(sorted(int(c.findtext("addressOffset"), 0) for c in root.iter("cluster")) == [0x8, 0x28], "offsets of the nested clusters")
""")

seed("C12-cluster-base", "C12", [(PER, """        .min_by_key(|rs| rs[0].address_offset)
        .unwrap()[0]""", """        .find(|rs| !rs[0].name.is_empty())
        .unwrap()[0]""")],
     "a single `_cluster` whose first rule is not for the lowest register",
     "the cluster begins at the first register named instead of the lowest; offsets wrap or panic",
     """
svd = dev(per("P", 0x1000, reg("A", 8) + reg("B", 4)))
rc, root, err = patch(svd, "P:\\n  _cluster:\\n    N:\\n      A: {}\\n      B: {}\\n")
check(rc == 0, err)
c = get(root, "cluster", "N")
check(int(c.findtext("addressOffset"), 0) == 4, "offset of the cluster")
""")

seed("C24-copy-interrupts", "C24", [(DEV, "            new.interrupt = std::mem::take(&mut ptag.interrupt);\n", "            if !ptag.interrupt.is_empty() {\n                new.interrupt = std::mem::take(&mut ptag.interrupt);\n            }\n")],
     "`_copy` from another file over a peripheral that has no interrupts",
     "the peripheral gets the interrupts of the other device",
     """
svd = dev(per("A", 0x1000, reg("R", 0)))
f = dev(per("B", 0x5000, reg("X", 4), ints=interrupt("I", 7)))
rc, root, err = patch(svd, "_copy:\\n  A:\\n    from: f.svd:B\\n", files={"f.svd": f})
check(rc == 0, err)
check(names(root, "register") == ["X"], "copied")
check(not list(root.iter("interrupt")), "foreign interrupts")
""")

seed("C24-rebase-interrupts", "C24", [(DEV, "        d.interrupt.clone_from(&new.interrupt);\n", "        if !new.interrupt.is_empty() {\n            d.interrupt.clone_from(&new.interrupt);\n        }\n")],
     "`_rebase` to a peripheral without interrupts",
     "the interrupts of the old peripheral appear twice",
     """
svd = dev(per("A", 0x1000, reg("R", 0), ints=interrupt("I", 7)), per("B", 0x2000, derived="A"))
rc, root, err = patch(svd, "_rebase:\\n  B: A\\n")
check(rc == 0, err)
check([i.findtext("name") for i in get(root, "peripheral", "A").iter("interrupt")] == ["I"], "interrupts of A")
check(not list(get(root, "peripheral", "B").iter("interrupt")), "interrupts of B")
""")

seed("C24-derive-redirect", "C24", [(DEV, """                if i < min_pos {
                    min_pos = i;
                }
                p.derived_from = Some(pderive.into());
""", """                if i < min_pos {
                    min_pos = i;
                    p.derived_from = Some(pderive.into());
                }
""")],
     "`_derive` of a peripheral that one further behind is derived from",
     "the peripheral further behind remains derived from one that is itself derived",
     """
svd = dev(per("S", 0x3000, reg("R", 0)), per("A", 0x1000, reg("R", 0)), per("B", 0x2000, derived="A"))
rc, root, err = patch(svd, "_derive:\\n  A: S\\n")
check(rc == 0, err)
check(get(root, "peripheral", "A").get("derivedFrom") == "S", "A")
check(get(root, "peripheral", "B").get("derivedFrom") == "S", "B still derived from A")
""")

seed("C24-rename-own", "C24", [(DEV, "            for p in self.peripherals.iter_mut() {\n                if let Some(old_name)", "            for p in self.peripherals.iter_mut().filter(|p| p.registers.is_none()) {\n                if let Some(old_name)")],
     "`_modify: name` of a peripheral from which one with registers of its own is derived",
     "its reference points to a peripheral that no longer exists",
     """
svd = dev(per("A", 0x1000, reg("R", 0)), per("B", 0x2000, reg("X", 4), derived="A"), per("C", 0x3000, derived="A"))
rc, root, err = patch(svd, "_modify:\\n  A:\\n    name: N\\n")
check(rc == 0, err)
check(get(root, "peripheral", "C").get("derivedFrom") == "N", "C")
check(get(root, "peripheral", "B").get("derivedFrom") == "N", "B: dangling reference")
""")

seed("C24-copy-offset", "C24", [(PER, "            source.address_offset = ptag.address_offset;\n", "            source.address_offset = ptag.address_offset.max(source.address_offset);\n")],
     "register `_copy` onto an existing register that lies before the source",
     "two registers at one address, none at the other",
     """
svd = dev(per("P", 0x1000, reg("A", 0) + reg("B", 4, field("F", 0))))
rc, root, err = patch(svd, "P:\\n  _copy:\\n    A:\\n      _from: B\\n")
check(rc == 0, err)
check(int(get(root, "register", "A").findtext("addressOffset"), 0) == 0, "offset of A")
""")

seed("C24-derive-missing", "C24", [(PER, "        if rderive.contains('.') {", "        if rderive.contains('.') || ignore {")],
     "an optional (`?~`) register `_derive` from a register that does not exist",
     "a dangling derivedFrom instead of an error",
     """
svd = dev(per("P", 0x1000, reg("A", 0) + reg("B", 4)))
rc, root, err = patch(svd, "P:\\n  _derive:\\n    '?~A': NONE\\n")
check(rc != 0, "derived from a register that does not exist")
rc, root, err = patch(svd, "P:\\n  _derive:\\n    '?~A': B\\n")
check(rc == 0, err)
""")

seed("C03-interrupt-ties", "C03", [(ILIST, """            .collect();
        interrupt_list.sort_by_key(|i| i.interrupt.value);""", """            .map(|i| ((i.interrupt.value, i.interrupt.name.clone()), i))
            .collect::<std::collections::HashMap<_, _>>()
            .into_values()
            .collect();
        interrupt_list.sort_by_key(|i| i.interrupt.value);""")],
     "several interrupts with the same number",
     "`interrupts` lists them in another order in every run",
     """
svd = dev(*[per("P%d" % i, 0x1000 * i, reg("R", 0), ints=interrupt("I%d" % i, 5)) for i in range(1, 13)])
outs = set()
for _ in range(8):
    rc, files, out, err = tool(["interrupts", "in.svd"], files={"in.svd": svd})
    check(rc == 0, err)
    outs.add(out)
check(len(outs) == 1, "%d different outputs" % len(outs))
""")

seed("C03-compare-fields", "C03", [("src/html/htmlcompare_cli.rs", ") -> BTreeMap<(u32, u32, String), Vec<String>> {", ") -> HashMap<(u32, u32, String), Vec<String>> {"),
                                   ("src/html/htmlcompare_cli.rs", "    let mut fields: BTreeMap<(u32, u32, String), Vec<String>> = BTreeMap::new();", "    let mut fields: HashMap<(u32, u32, String), Vec<String>> = HashMap::new();"),
                                   ("src/html/htmlcompare_cli.rs", "fields: &BTreeMap<(u32", "fields: &HashMap<(u32")],
     "`htmlcompare` of devices with several fields in a register",
     "the rows of the field tables come in another order in every run",
     """
svd = dev(per("P", 0x1000, reg("R", 0, "".join(field("F%d" % i, i) for i in range(12)))))
outs = set()
for _ in range(6):
    rc, files, out, err = tool(["htmlcompare", "h", "in.svd"], files={"in.svd": svd}, keep=["h/P_0x00001000_R_0x0000.html"])
    check(rc == 0, err)
    outs.add(files["h/P_0x00001000_R_0x0000.html"])
check(len(outs) == 1 and None not in outs, "%d different outputs" % len(outs))
""")

seed("C03-index-race", "C03", [("src/html/html_cli.rs", """    let mut devices = svdfiles
        .par_iter()
        .map(|f| {""", """    let devices = std::sync::Mutex::new(Vec::new());
    svdfiles
        .par_iter()
        .for_each(|f| {"""), ("src/html/html_cli.rs", """            object!({
                "name": device.get("name"),
                "progress": device.get("progress"),
                "fields_documented": device.get("fields_documented"),
                "fields_total": device.get("fields_total"),
            })
        })
        .collect::<Vec<_>>();""", """            let row = object!({
                "name": device.get("name"),
                "progress": device.get("progress"),
                "fields_documented": device.get("fields_documented"),
                "fields_total": device.get("fields_total"),
            });
            devices.lock().unwrap().push(row);
        });
    let mut devices = devices.into_inner().unwrap();""")],
     "devices whose names differ only in case, processed by several threads",
     "their rows in index.html change places from run to run",
     """
def case(i):
    return "".join(c.upper() if i >> k & 1 else c for k, c in enumerate("device"))
files = {}
for i in range(32):
    n = 400 if i % 3 == 0 else 1
    files["in%02d.svd" % i] = dev(per("P", 0x1000, "".join(reg("R%d" % j, 4 * j, field("F", 0)) for j in range(n)))).replace("<name>D</name>", "<name>%s</name>" % case(i), 1)
outs = set()
for _ in range(6):
    rc, got, out, err = tool(["html", "h", *sorted(files)], files=files, keep=["h/index.html"])
    check(rc == 0 and got["h/index.html"], err)
    outs.add(got["h/index.html"])
check(len(outs) == 1, "%d different outputs" % len(outs))
""")

seed("C36-merge-first", "C36", [(REG, "                    bitoffset = bitoffset.min(f.bit_range.offset);", "                    bitoffset = if bitoffset == u32::MAX {\n                        f.bit_range.offset\n                    } else {\n                        bitoffset\n                    };")],
     "a `_merge` of fields that are not listed in the order of their bits",
     "the merged field begins where the first listed does, not at the lowest bit",
     """
svd = dev(per("P", 0x1000, reg("R", 0, field("A1", 5) + field("A0", 4) + field("B", 0))))
rc, root, err = patch(svd, "P:\\n  R:\\n    _merge: [A*]\\n")
check(rc == 0, err)
f = get(root, "field", "A")
check(f is not None, names(root, "field"))
check((f.findtext("bitOffset"), f.findtext("bitWidth")) == ("4", "2"), (f.findtext("bitOffset"), f.findtext("bitWidth")))
""")

seed("C36-merge-prefix", "C36", [(REG, "            fields.retain(|f| !names.contains(&f.name));", "            fields.retain(|f| !names.iter().any(|n| f.name.starts_with(n.as_str())));")],
     "a field that is not merged and whose name begins with that of one that is",
     "it is removed, too",
     """
svd = dev(per("P", 0x1000, reg("R", 0, field("A0", 0) + field("A1", 1) + field("A10", 10))))
rc, root, err = patch(svd, "P:\\n  R:\\n    _merge:\\n      M: [A0, A1]\\n")
check(rc == 0, err)
check(sorted(names(root, "field")) == ["A10", "M"], names(root, "field"))
""")

seed("C36-split-two", "C36", [(REG, '''            (Some(_), Some(_)) => {
                return Err(anyhow!(
                    "Only one field can be splitted at time {rpath}:{fspec}"
                ));
            }
            (Some(first), None) => {''', '''            (Some(first), second) => {
                // several elements of one name count as one
                if second.is_some_and(|f| f.bit_range.width != first.bit_range.width) {
                    return Err(anyhow!(
                        "Only one field can be splitted at time {rpath}:{fspec}"
                    ));
                }''')],
     "a `_split` specification that covers two fields of one width",
     "the first is split, the other left alone, no error is reported",
     """
svd = dev(per("P", 0x1000, reg("R", 0, field("A0", 0, 2) + field("A1", 2, 2))))
rc, root, err = patch(svd, "P:\\n  R:\\n    _split: ['A*']\\n")
check(rc != 0, "no error")
svd = dev(per("P", 0x1000, reg("R", 0, field("A", 0, 2) + field("B", 2, 2))))
rc, root, err = patch(svd, "P:\\n  R:\\n    _split: ['A*']\\n")
check(rc == 0, err)
check(sorted(names(root, "field")) == ["A0", "A1", "B"], names(root, "field"))
""")

seed("C36-split-number", "C36", [(REG, "                        let is = i.to_string();", "                        let is = (bitoffset + i).to_string();")],
     "a `_split` of a field that does not begin at bit 0",
     "the new fields are numbered by their place in the register",
     """
svd = dev(per("P", 0x1000, reg("R", 0, field("A", 4, 2))))
rc, root, err = patch(svd, "P:\\n  R:\\n    _split: {A: {name: 'X%s', description: 'bit %s'}}\\n")
check(rc == 0, err)
check(sorted((f.findtext("name"), f.findtext("description"), f.findtext("bitOffset")) for f in root.iter("field")) == [("X0", "bit 0", "4"), ("X1", "bit 1", "5")], names(root, "field"))
""")
