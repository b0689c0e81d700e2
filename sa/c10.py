"""Attribute values given by `_modify` rules reach exactly the attribute they name."""
from core import *

INT32 = {"conv:i64->u32", "cast:i64->u32"}  # that the conversion is checked is part of C35
INT64 = {"conv:i64->u64", "cast:i64->u64"}
REPL = {"std::str::<impl str>::replace"}
ACC = {"svd_rs::Access::parse_str"}


def V(kind, *dest, ops=(), opt=False):
    return kind, {tuple(d.split(".")) for d in dest}, set(ops)


def props(o):
    return {
        "size": V("$int", o + ".size", ops=INT32),
        "access": V("$str", o + ".access", ops=ACC),
        "resetValue": V("$int", o + ".reset_value", ops=INT64),
        "resetMask": V("$int", o + ".reset_mask", ops=INT64),
    }


def strs(o, m, ops=()):
    return {k: V("$str", o + "." + v, ops=ops) for k, v in m.items()}


DEVICE = {
    **strs("Device", {"vendor": "vendor", "vendorID": "vendor_id", "name": "name", "series": "series", "version": "version", "description": "description",
                      "licenseText": "license_text", "headerSystemFilename": "header_system_filename", "headerDefinitionsPrefix": "header_definitions_prefix"}),
    "addressUnitBits": V("$int", "Device.address_unit_bits", ops=INT32),
    "width": V("$int", "Device.width", ops=INT32),
    **props("Device"),
}
CPU = {
    **strs("Cpu", {"name": "name", "revision": "revision"}),
    "endian": V("$str", "Cpu.endian", ops={"svd_rs::Endian::parse_str"}),
    **{k: V("$bool", "Cpu." + v) for k, v in {"mpuPresent": "mpu_present", "fpuPresent": "fpu_present", "fpuDP": "fpu_double_precision", "dspPresent": "dsp_present",
                                             "icachePresent": "icache_present", "dcachePresent": "dcache_present", "itcmPresent": "itcm_present",
                                             "dtcmPresent": "dtcm_present", "vtorPresent": "vtor_present", "vendorSystickConfig": "has_vendor_systick"}.items()},
    **{k: V("$int", "Cpu." + v, ops=INT32) for k, v in {"deviceNumInterrupts": "device_num_interrupts", "sauNumRegions": "sau_num_regions", "nvicPrioBits": "nvic_priority_bits"}.items()},
}
DIM = {
    "dim": V("$int", "DimElement.dim", ops=INT32),
    "dimIncrement": V("$int", "DimElement.dim_increment", ops=INT32),
    "dimName": V("$str", "DimElement.dim_name"),
    "dimIndex": V("$str", "DimElement.dim_index", ops={"svd_rs::DimElement::parse_indexes"}),
}
PERIPHERAL = {
    **strs("Peripheral", {"displayName": "display_name", "version": "version", "description": "description", "groupName": "group_name", "name": "name"}),
    "baseAddress": V("$int", "Peripheral.base_address", ops=INT64),
    **props("Peripheral"),
}
INTERRUPT = {"description": V("$str", "Interrupt.description"), "name": V("$str", "Interrupt.name"), "value": V("$int", "Interrupt.value", ops=INT32)}
BLOCK = {"offset": V("$int", "AddressBlock.offset", ops=INT32), "size": V("$int", "AddressBlock.size", ops=INT32),
         "usage": V("$str", "AddressBlock.usage", ops={"svd_rs::AddressBlockUsage::parse_str"})}
CLUSTER = {
    **strs("Cluster", {"description": "description", "derivedFrom": "derived_from"}, REPL),
    **strs("Cluster", {"name": "name"}),
    "addressOffset": V("$int", "Cluster.address_offset", ops=INT32),
    **props("Cluster"),
}
REGISTER = {
    **strs("Register", {"description": "description", "derivedFrom": "derived_from"}, REPL),
    **strs("Register", {"name": "name", "displayName": "display_name", "alternateGroup": "alternate_group", "alternateRegister": "alternate_register"}),
    "addressOffset": V("$int", "Register.address_offset", ops=INT32),
    **props("Register"),
}
FIELD = {
    **strs("Field", {"description": "description", "derivedFrom": "derived_from"}, REPL),
    "name": V("$str", "Field.name"),
    "access": V("$str", "Field.access", ops=ACC),
    "modifiedWriteValues": V("$str", "Field.modified_write_values", ops={"svd_rs::ModifiedWriteValues::parse_str"}),
    "readAction": V("$str", "Field.read_action", ops={"svd_rs::ReadAction::parse_str"}),
}
BITS = {
    "offset": {"bitOffset": V("$int", "Field.bit_offset", ops=INT32), "bitWidth": V("$int", "Field.bit_width", ops=INT32)},
    "range": {"bitRange": V("$str", "Field.bit_range", ops={"svd_rs::BitRange::from_bit_range"})},
    "lsbmsb": {"msb": V("$int", "Field.bit_range", ops=INT32 | {"svd_rs::BitRange::from_msb_lsb"}), "lsb": V("$int", "Field.bit_range", ops=INT32 | {"svd_rs::BitRange::from_msb_lsb"})},
}


def rng(o):
    return (["$int", "$int"], o)


def doc_of(ctx, keys):
    return ctx({k: (v[0] if isinstance(v, tuple) else v) for k, v in keys.items()})


def disc(x, adt):
    if adt == OPTION:
        if x.k == "P" and is_dev(x):
            if x.b == "derived_from":
                return {"None"}
            if x.b in ("fields", "registers", "interrupt", "address_block", "cpu"):
                return {"Some"}
        if x.k == "N" and (x.eng.ninfo[x][0].endswith("::parse_str") or x.eng.ninfo[x][0].endswith("from_bit_range") or x.eng.ninfo[x][0].endswith("parse_indexes")):
            return {"Some"}
    return None


def hook(c):
    if c.n == MATCH and any(owner_of(x) == "Cluster" for x in leaves(c.args[1]) if x.k == "P" and is_dev(x)) and NOCLUSTER:
        return {c.eng.FALSE}
    # the name of the addressed interrupt is the one in the rule
    if c.n == "std::cmp::PartialEq::eq" and len(c.args) == 2:
        t, f = False, False
        for a, b in ((0, 1), (1, 0)):
            ps = [x for x in c.a(a) if x.k == "P" and is_dev(x) and x.b == "name" and owner_of(x) == "Interrupt"]
            if ps and consts(c.args[b]) | {x.c for x in leaves(c.args[b]) if x.k == "Y" and x.a == "str"}:
                return {c.eng.TRUE}
    return None


def ypath_of(prefix, key):
    return prefix + "/" + key


def unwrap(vals, depth=0):
    """Strip Some/Ok/Cow wrappers."""
    out = set()
    for x in vals:
        if x.k == "O" and x.b == "adt" and (x.c[0] in (OPTION, RESULT) or x.c[0].endswith("Cow")) and x.cells and depth < 6:
            for c in x.cells.values():
                out |= unwrap(c.v, depth + 1)
        else:
            out.add(x)
    return out


def opnames(atoms):
    """Operations applied to the value on its way (the replacement texts of `replace` are not part of the value)."""
    out = set()
    seen = set()
    todo = list(atoms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "N":
            n, args = x.eng.ninfo[x][0], x.eng.ninfo[x][1]
            out.add(n)
            for a in (args[:1] if n in REPL else args):
                todo.extend(a)
        elif x.k == "P":
            todo.append(x.a)
        elif x.k == "O":
            for c in x.cells.values():
                todo.extend(c.v)
        elif x.k == "R":
            todo.extend(x.cell.v)
    return out


def unset(x):
    return x.k == "U" and x.b == 0


def run(rep, name, ctx, prefix, keys, forall=True, only=None, must=True, ignore=(), also=(), single=False, together=False, names=None, top=None):
    """One level: all keys at once, then every key alone is checked for not touching anything else."""
    doc = doc_of(ctx, keys)
    r = patch_run(doc, hook=hook, disc=disc)
    eng = r.eng
    effs = effects(eng)
    by = {}
    for e in effs:
        for (o, a, v) in sinks(e):
            by.setdefault((o, a), []).append((e, v))
    want = {}
    for k, (kind, dest, ops) in keys.items():
        for d in dest:
            want.setdefault(d, []).append((k, ops))
    items = {}
    pfx = set()
    for d, ks in want.items():
        yp = {ypath_of(prefix, k) for k, _ in ks}
        pfx |= yp
        allow = set().union(*[o for _, o in ks])
        label = "%s/%s" % (name, "+".join(k for k, _ in ks))
        got = [(e, v) for e, v in by.get(d, ()) if yp & ypaths(v)]
        rep.require(bool(got), label + "/reaches", "%s: value of `%s` never reaches %s.%s" % (name, "+".join(k for k, _ in ks), *d))
        for e, v in by.get(d, ()) if not together else ():
            loc = "%s (%s)" % (e.f.n, e.f.loc(e.bb))
            for x in unwrap(v):
                yps = ypaths({x})
                if unset(x) and allow - INT32 - INT64 - REPL:
                    continue  # a text that is none of the known words: see C13
                ok = yps == yp or (any(p.startswith(y + "/") or p == y for p in yps for y in yp) and all(any(p == y or p.startswith(y + "/") for y in yp) for p in yps))
                rep.require(ok, label + "/value", "%s: %s sets %s.%s to a value that is not exactly the one given for `%s`: %s" % (name, loc, d[0], d[1], "+".join(k for k, _ in ks), show(x)[:160]))
            bad = {o for o in opnames(v) if o not in allow and not o.startswith("svd_parser") and o not in IDENT}
            rep.require(not bad, label + "/ops", "%s: %s: the value of `%s` is altered on its way to %s.%s by %s" % (name, loc, "+".join(k for k, _ in ks), d[0], d[1], sorted(bad)))
        if got and must and not (only and d[0] not in only):
            sel = (lambda d, yp: lambda e: any((o, a) == d and yp & ypaths(v) for o, a, v in sinks(e)))(d, yp)
            items[label] = (sel, [e for e, v in got], forall)
        rep.samples.append({"rule": name, "key": [k for k, _ in ks], "attribute": "%s.%s" % d, "set at": ["%s (%s)" % (e.f.n, e.f.loc(e.bb)) for e, v in got][:3]})
    # nothing else is touched
    owners = {d[0] for d in want}
    for (o, a), l in by.items() if not together else ():
        if (o, a) in want or (o, a) in also or o in ignore:
            continue
        for e, v in l:
            yps = {p for p in ypaths(v) if any(p == y or p.startswith(y + "/") for y in (ypath_of(prefix, k) for k in keys))}
            real = {x for x in unwrap(v) if not (x.k == "U" and x.b == 0) and not (x.k == "O" and x.b in ("builder",)) and not (x.k == "K" and x.a == "unit")}
            if names and (o, a) in names:
                ks = {x.b for x in unwrap(v) if x.k == "K"} | {x.c for x in unwrap(v) if x.k == "Y"}
                rep.require(ks == {names[(o, a)]} and not opnames(v), "%s/%s.%s" % (name, o, a), "%s: %s (%s) names the new element %s instead of the key of the rule" % (name, e.f.n, e.f.loc(e.bb), show(v)[:160]))
            elif names and a in ("*insert", "*push", "*push_back", "*extend"):
                pass  # the new element itself and its position
            elif a.startswith("*"):
                rep.require(not yps, "%s/other" % name, "%s: %s (%s): %s also flows into %s.%s" % (name, e.f.n, e.f.loc(e.bb), sorted(yps), o, a))
            elif (e.kind == "set" and o == short(e.adt or "") ) or real:
                rep.violation("%s/%s.%s" % (name, o, a), "%s: %s (%s) also changes %s.%s (to %s)" % (name, e.f.n, e.f.loc(e.bb), o, a, show(v)[:160]))
    if names:
        for o in {o for o, a in names}:
            rep.require((o, "name") in by, "%s/%s/name" % (name, o), "%s: no %s named by the rule is created" % (name, o))
    for label, txt in must_many(doc, items, pfx, hook=hook, disc=disc):
        rep.violation(label + "/always", txt)
    for label in items:
        rep.ok(label + "/always")
    rep.count("rules")
    rep.count("keys", len(keys))
    rep.count("frames", len(eng.frames))


IDENT = set()
NOCLUSTER = []


def levels():
    return [
        ("_modify device", lambda h: {"_modify": h}, "/_modify", DEVICE, dict(single=True)),
        ("_modify cpu", lambda h: {"_modify": {"cpu": h}}, "/_modify/cpu", CPU, dict(also={("Device", "cpu")})),
        ("_modify peripheral", lambda h: {"_modify": {"P": h}}, "/_modify/P", PERIPHERAL, {}),
        ("_modify peripheral derived", lambda h: {"_modify": {"P": {"derivedFrom": "$str", **h}}}, "/_modify/P", {k: v for k, v in PERIPHERAL.items() if k not in props("")},
         dict(also={("Peripheral", "derived_from")})),
        ("_modify peripheral derivedFrom", lambda h: {"_modify": {"P": h}}, "/_modify/P", {"derivedFrom": V("$str", "Peripheral.derived_from")}, {}),
        ("_modify peripheral dim", lambda h: {"_modify": {"P": h}}, "/_modify/P", DIM, {}),
        ("_modify _peripherals", lambda h: {"_modify": {"_peripherals": {"P": h}}}, "/_modify/_peripherals/P", PERIPHERAL, {}),
        ("_modify peripheral interrupts", lambda h: {"_modify": {"P": {"interrupts": {"I": h}}}}, "/_modify/P/interrupts/I", INTERRUPT, dict(forall=False)),
        ("_modify peripheral addressBlock", lambda h: {"_modify": {"P": {"addressBlock": h}}}, "/_modify/P/addressBlock", BLOCK, {}),
        ("_modify peripheral addressBlocks", lambda h: {"_modify": {"P": {"addressBlocks": [h]}}}, "/_modify/P/addressBlocks/0", BLOCK, {}),
        ("_modify interrupt", lambda h: {"P": {"_modify": {"_interrupts": {"I": h}}}}, "/P/_modify/_interrupts/I", INTERRUPT, {}),
        ("_modify _registers", lambda h: {"P": {"_modify": {"_registers": {"R": h}}}}, "/P/_modify/_registers/R", REGISTER, {}),
        ("_modify _registers dim", lambda h: {"P": {"_modify": {"_registers": {"R": h}}}}, "/P/_modify/_registers/R", DIM, {}),
        ("_modify _clusters", lambda h: {"P": {"_modify": {"_clusters": {"C": h}}}}, "/P/_modify/_clusters/C", CLUSTER, {}),
        ("_modify _clusters dim", lambda h: {"P": {"_modify": {"_clusters": {"C": h}}}}, "/P/_modify/_clusters/C", DIM, {}),
    ]


FLD = lambda h: {"P": {"R": {"_modify": {"F": h}}}}


def wc(rep):
    """Write constraints of fields: range, enum, none, under both spellings of the key."""
    for key in ("_write_constraint", "writeConstraint"):
        for form, val in (("range", ["$int", "$int"]), ("enum", "enum"), ("none", "none")):
            name = "_modify field %s %s" % (key, form)
            doc = FLD({key: val})
            r = patch_run(doc, hook=hook, disc=disc)
            hits = []
            for e in effects(r.eng):
                for (o, a, v) in sinks(e):
                    if o != "Field" or a.startswith("*"):
                        continue
                    vs = unwrap(v)
                    if a != "write_constraint":
                        if {x for x in vs if not unset(x)} and not all(x.k == "O" and x.b == "builder" for x in vs):
                            rep.violation(name + "/other", "%s: %s (%s) also changes Field.%s" % (name, e.f.n, e.f.loc(e.bb), a))
                        continue
                    direct = e.kind == "set"
                    for x in vs:
                        where = "%s (%s)" % (e.f.n, e.f.loc(e.bb))
                        if unset(x):
                            if form == "none" and direct:
                                hits.append(e)
                            elif direct:
                                rep.violation(name + "/value", "%s: %s removes the write constraint" % (name, where))
                            continue
                        ok = False
                        if x.k == "O" and x.b == "adt" and x.c[0].endswith("WriteConstraint"):
                            inner = set()
                            for c in x.cells.values():
                                inner |= c.v
                            vn = x.eng.adts[x.c[0]]["v"][x.c[1]]["n"] if isinstance(x.eng.adts[x.c[0]].get("v"), list) and isinstance(x.eng.adts[x.c[0]]["v"][0], dict) else str(x.c[1])
                            if form == "enum":
                                ok = all(y is x.eng.TRUE for y in inner) and "Range" not in vn
                            elif form == "range":
                                mm = [c for y in inner if y.k == "O" and y.b == "adt" for k, c in sorted(y.cells.items(), key=lambda kv: str(kv[0])) if not str(k).startswith("@")]
                                ok = len(mm) == 2 and scalar_ypaths(mm[0].v) == {"/P/R/_modify/F/%s/0" % key} and scalar_ypaths(mm[1].v) == {"/P/R/_modify/F/%s/1" % key} \
                                    and not opnames(mm[0].v | mm[1].v) - INT64
                        rep.require(ok, name + "/value", "%s: %s sets the write constraint to %s" % (name, where, show(x)[:200]))
                        if ok and direct:
                            hits.append(e)
            rep.require(hits, name + "/reaches", "%s: the write constraint is never set accordingly" % name)
            if hits:
                where = {(e.f.m, e.bb) for e in hits}
                sel = lambda e: e.kind == "set" and any((o, a) == ("Field", "write_constraint") for o, a, v in sinks(e))
                for t in must_violations(doc, sel, hits, {"/P/R/_modify/F"}, hook=hook, disc=disc):
                    rep.violation(name + "/always", name + ": " + t)
                rep.ok(name + "/always")


def check(rep):
    NOCLUSTER.append(1)
    wc(rep)
    NOCLUSTER.append(1)
    for keys in (FIELD, DIM):
        for grp in groups(keys):
            run(rep, "_modify field", FLD, "/P/R/_modify/F", grp)
        run(rep, "_modify field (all keys)", FLD, "/P/R/_modify/F", keys, together=True)
    for form, keys in BITS.items():
        run(rep, "_modify field bits (%s)" % form, FLD, "/P/R/_modify/F", keys)
    PLAIN = lambda h: {"P": {"_modify": {"R": h}}}
    for keys in (REGISTER, DIM):
        for grp in groups(keys):
            run(rep, "_modify R", PLAIN, "/P/_modify/R", grp)
        run(rep, "_modify R (all keys)", PLAIN, "/P/_modify/R", keys, together=True)
    NOCLUSTER.clear()
    for name, ctx, pfx, keys, kw in levels():
        for grp in groups(keys):
            run(rep, name, ctx, pfx, grp, **kw)
        if not kw.get("single"):
            run(rep, name + " (all keys)", ctx, pfx, keys, together=True, **kw)
    rep.rule = RULE
    return EXPL


def groups(keys):
    """Keys that set the same attribute together go into one document; every other key into its own."""
    by = {}
    for k, v in keys.items():
        by.setdefault(frozenset(v[1]), {})[k] = v
    return list(by.values())


RULE = ("for every `_modify` level and every attribute key: on every element matched by the spec the value of that key (only converted, never altered) is stored in exactly the SVD attribute the key names; "
        "no other attribute is written; no successful run skips a matched element or stops before the last one")
EXPL = ("rustc MIR of svdtools::patch abstractly interpreted from patch::process_reader over one abstract patch document per (level, attribute key) and one per level with all keys; "
        "`rules` documents, `keys` attribute keys, `frames` analysed function instances; obligations are (level, key, attribute) provenance facts plus must-happen facts on the interprocedural CFG "
        "of a second run in which every hand-out point of matched elements yields an element")
ASSUME = ["svd-rs `modify_from` and builder setters are modelled: each sets the attribute of the same name when the builder carries it",
          "unknown words for enumerated attributes (access, usage, endian, ...) are outside this property",
          "the addressed containers exist in the device; the element addressed is not derived"]
