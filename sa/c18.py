"""mmap lists every element of the device at its absolute address."""
from flow import *

ROOT = "mmap::mmap_cli::parse_device"
PER = ("peripherals",)
SEP = ("print", "println", "_print")


def disc_of(shape, arr, has=None, full=False):
    def disc(x, adt):
        a = adt.rsplit("::", 1)[-1]
        g = gchain(x)
        if a == "RegisterCluster":
            return {"Cluster"} if shape == "C" and "children" not in g else {"Register"}
        if a == "MaybeArray":
            own = {"peripherals": "P", "Cluster/0": "C", "Register/0": "R", "fields": "F", "clusters()": "C", "registers()": "R", "fields()": "F"}.get(g[-1] if g else "")
            if own is None and g and g[-1] in ("Array/1",):
                return None
            if own is not None:
                return {"Array"} if own in arr else {"Single"}
        if full and adt == OPTION and g[-1:] in (("description",), ("derived_from",)):
            return {"Some"} if g != PER + ("derived_from",) else {"None"}
        if has is not None and adt == OPTION and g == PER + ("derived_from",) and expanded(x):
            return {"Some"}
        if has is not None and adt == OPTION and g == PER + ("registers",):
            return {"Some"} if has or not expanded(x) else {"None"}
        if adt == OPTION and x.k == "P" and g and g[-1] in ("registers", "fields"):
            return {"Some"}
        return None
    return disc


def hook(c):
    if c.n.rsplit("::", 1)[-1] in ("eq", "ne") and len(c.args) == 2:
        a = [{gchain(x)[-1:] for x in leaves(v, cells=False) if x.k == "P" and is_svd(x)} for v in c.args]
        if any(("derived_from",) in s for s in a) and any(("name",) in s for s in a):
            return {c.eng.TRUE if c.n.endswith("eq") else c.eng.FALSE}
    return None


def is_svd(x):
    return bool(gchain(x)) and gchain(x)[0] == "peripherals"


def elem(path, exp=None):
    """Elements of the list at the path (not their parts)."""
    def p(x):
        return x.k == "P" and gchain(x) == path and "elem" in chain_of(x) + ["elem"] * (not chain_of(x)) and (exp is None or (expanded(x) and chain_of(x) in (["elem"], [])) == exp)
    return p


def check_shape(rep, shape, arr, owned=None, full=False):
    fl = Flow(ROOT, hook=hook, disc=disc_of(shape, arr, owned, full))
    eng = fl.eng
    label = "%s/%s" % ("cluster" if shape == "C" else "register", arr or "-") + ("" if owned is None else "/derived with own registers" if owned else "/derived") + ("/described" if full else "")
    REGS = PER + ("registers",)
    CL = REGS + ("Cluster/0",)
    REG = (CL + ("children",) if shape == "C" else REGS) + ("Register/0",)
    FLD = REG + ("fields",)
    lev_p = [("peripherals", elem(PER, False))] + ([("peripheral array elements", elem(PER, True))] if "P" in arr else [])
    lev_rc = lev_p + [("registers and clusters", lambda x: x.k == "P" and gchain(x) == REGS and chain_of(x)[-1:] == ["elem"] and (owned is None or expanded(x) == owned))]
    lines = [("peripheral", lev_p, PER, {"base_address", "name"}, [], "P" in arr),
             ("interrupt", lev_p + [("interrupts", lambda x: x.k == "P" and gchain(x) == PER + ("interrupt",) and chain_of(x)[-1:] == ["elem"])], PER + ("interrupt",), {"name", "value", "description"}, None, False)]
    offs = []
    if shape == "C":
        lev_rc = lev_rc + ([("cluster array elements", elem(CL, True))] if "C" in arr else [])
        lines.append(("cluster", lev_rc, CL, {"name", "description", "derived_from"}, [CL], "C" in arr))
        offs = [CL]
        lev_rc = lev_rc + [("registers of clusters", lambda x: x.k == "P" and gchain(x) == CL + ("children",) and chain_of(x)[-1:] == ["elem"])]
    lev_rc = lev_rc + ([("register array elements", elem(REG, True))] if "R" in arr else [])
    offs = offs + [REG]
    lines.append(("register", lev_rc, REG, {"name", "description", "derived_from"}, offs, "R" in arr))
    lev_f = lev_rc + [("fields", lambda x: x.k == "P" and gchain(x) == FLD and chain_of(x)[-1:] == ["elem"])] + ([("field array elements", elem(FLD, True))] if "F" in arr else [])
    lines.append(("field", lev_f, FLD, {"name", "description", "derived_from", "offset", "width"}, offs, "F" in arr))
    base = PER + ("base_address",)
    isarr = {PER: "P" in arr, CL: "C" in arr, REG: "R" in arr, FLD: "F" in arr}

    def attrsof(atoms, path):
        """attributes of the element at path among the parts (those certainly there, where it matters)"""
        out = {}
        sure = surely(atoms)
        for x in parts(atoms):
            if x.k == "P" and x not in sure and (full or gchain(x)[-1:] not in (("description",), ("derived_from",), ("Some",))) and gchain(x)[-2:-1] not in (("description",), ("derived_from",)):
                continue
            g = gchain(x) if x.k == "P" else ()
            if g[:len(path)] == path and len(g) > len(path):
                k = ".".join(g[len(path):])
                k = {"bit_range.offset": "offset", "bit_range.width": "width", "bit_offset()": "offset", "bit_width()": "width"}.get(k, k)
                if k.startswith("description"):
                    k = "description"
                if k.startswith(("derived_from", "access", "properties.access")):
                    k = k.replace(".Some", "")
                out.setdefault(k, []).append(x)
        for x in leaves(atoms, cells=True):
            n = eng.ninfo[x][0].rsplit("::", 1)[-1] if x.k == "N" else ""
            if n in ("bit_offset", "bit_width", "bit_range", "lsb", "msb"):
                for y in set().union(*[deref_all(a) for a in eng.ninfo[x][1][:1]]):
                    if y.k == "P" and (gchain(y) == path or gchain(y) == path + ("bit_range",)):
                        for k in {"bit_offset": ("offset",), "lsb": ("offset",), "bit_width": ("width",), "msb": ("width",), "bit_range": ()}[n]:
                            out.setdefault(k, []).append(x)
        return out

    for kind, levels, path, need, off, arrayed in lines:
        acts, why = [], "no line with %s" % ", ".join(sorted(need))
        for f, bb, n, t in outputs(fl):
            at = attrsof(t, path)
            if "name" not in at or (kind != "field" and attrsof(t, FLD).get("name")):
                continue
            if not all(own(x, arrayed) for x in at["name"]):
                if n not in ("_print",):
                    why = "%s %s: the name of the %s is not that of the element" % (f.n, f.loc(bb), kind)
                continue
            miss = need - set(at) | {k for k in ("offset",) if kind == "field" and arrayed and not all(of_elem(eng, x) for x in at.get(k, ()))}
            if miss:
                why = "%s %s: the line lacks %s" % (f.n, f.loc(bb), ", ".join(sorted(miss)))
                continue
            if off is not None:
                want = sorted([(base, isarr[PER])] + [(o + ("address_offset",), isarr[o]) for o in off])
                ok = None
                for x, ss in numbers(t).items():
                    if not any(base == gchain(y) for s in ss for y in s if y.k == "P"):
                        continue
                    got = {tuple(sorted((gchain(y), exact(y)) if y.k == "P" else ((str(y),), False) for y in s)) for s in ss}
                    ok = ok is not False and got == {tuple(want)}
                    if not ok:
                        why = "%s %s: the address is not the sum of %s (%s)" % (f.n, f.loc(bb), " + ".join(".".join(w[0]) for w in want), sorted(got)[:2])
                if ok is None:
                    why = "%s %s: the line lacks the address (base address plus offsets)" % (f.n, f.loc(bb))
                if not ok:
                    continue
            acts.append((f, bb, 0))
        rep.count("lines", len(acts))
        if owned is False and acts and kind in ("register", "field"):
            # the father may not exist
            bad = None if fl.handouts(lev_rc[len(lev_p)][1]) else "the registers of the peripheral it is derived from are not visited"
        elif owned and kind == "register" and fl.handouts(lambda x: x.k == "P" and gchain(x) == REGS and chain_of(x)[-1:] == ["elem"] and not expanded(x)):
            bad = "the registers of the peripheral it is derived from are visited instead of its own"
        else:
            bad = fl.prove(levels, acts) if acts else why
        rep.require(not bad, "%s/%s" % (label, kind), "%s: no complete line for each %s: %s" % (label, kind, bad))
    # everything is printed, in sorted order
    prints = [(f, bb, args) for f, bb, n, cal, args, dest in fl.calls("_print", "write_all", "write_fmt") if any(is_svd(x) for a in args for x in leaves(a) if x.k == "P")]
    if not prints:
        raise Anchor("nothing is printed")
    root = eng.frames[0]
    r = fl.cfg.reach([(root, root.body.entry, 0)], avoid={(f, b, 0) for f, b, _ in prints} | fl.errs)
    rep.require(not any(n[0] is root and root.body.blocks[n[1]][1][0] == "ret" for n in r), label + "/printed", "the map can be left unprinted")
    sorts = {(f, bb, 0) for f, bb, n, cal, args, dest in fl.calls() if n.startswith("sort") or n in ("into_sorted_vec", "sorted") or "BTree" in cal["n"] and n in ("insert", "from_iter", "extend")}
    pushes = [(f, bb, 1) for f, bb, n, cal, args, dest in fl.calls(*SINK) if n not in ("_print", "write_fmt", "write_str") and not cal.get("inst") and any(is_svd(x) for a in args[1:] for x in leaves(a) if x.k == "P")
              and any(y.k == "O" and y.b == "vec" for y in payload(eng, args[0]))]
    r = fl.cfg.reach(pushes, avoid=sorts | fl.errs)
    rep.require(sorts and not any((f, b, 0) in r for f, b, _ in prints), label + "/sorted", "lines are printed without having been sorted")
    for f, bb, n, cal, args, dest in fl.calls("truncate", "retain", "dedup", "pop", "clear", "dedup_by", "dedup_by_key", "drain", "split_off", "take", "skip", "filter", "remove", "swap_remove", "nth", "step_by"):
        if args and any(y.k == "O" and y.b in ("vec", "iter") and any(gchain(x)[-1:] == ("base_address",) for x in leaves({y}) if x.k == "P") and any(z.k == "N" for c in y.cells.values() for z in c.v) for y in payload(eng, args[0])):
            rep.violation(label + "/kept", "%s %s: lines are removed (%s)" % (f.n, f.loc(bb), n))
    rep.count("scenarios")
    rep.count("frames", len(eng.frames))


def deref_all(atoms):
    out = set()
    for x in atoms:
        out |= deref_all(x.cell.v) if x.k == "R" else {x}
    return out


def of_elem(eng, x):
    """Computed from the expanded array element itself?"""
    if x.k == "N":
        return all(expanded(y) for a in eng.ninfo[x][1][:1] for y in deref_all(a) if y.k == "P")
    return expanded(x)


def own(x, arrayed):
    return not arrayed or exact(x)


def exact(x):
    """An attribute of an expanded array element itself."""
    return expanded(x) and len([k for k in chain_of(x) if k != "elem"]) == 1


def access_text(rep, kind, path, v):
    base = disc_of("R", "")

    def disc(x, adt):
        if adt == OPTION and gchain(x)[-1:] == ("access",):
            return {"Some" if v and (gchain(x)[-2] == "fields") == (kind == "field") else "None"}
        if adt.rsplit("::", 1)[-1] == "Access":
            return {v} if v else None
        return base(x, adt)
    fl = Flow(ROOT, hook=hook, disc=disc)
    txt = set()
    for f, bb, n, cal, args, dest in fl.calls(*SINK):
        if n != "_print" and not cal.get("inst") and len(args) > 1:
            ps = {gchain(x) for x in parts(set().union(*args[1:])) if x.k == "P"}
            if path + ("name",) in ps and (kind == "field" or path + ("fields", "name") not in ps):
                txt |= {x.b for x in leaves(set().union(*args[1:])) if x.k == "K" and isinstance(x.b, (str, tuple))}
    rep.count("scenarios")
    rep.count("frames", len(fl.eng.frames))
    return txt


def check_access(rep):
    """Each access value shows in the line of the register or field."""
    seen = {}
    for kind, path in (("register", PER + ("registers", "Register/0")), ("field", PER + ("registers", "Register/0", "fields"))):
        for v in (None, "ReadOnly", "ReadWrite", "ReadWriteOnce", "WriteOnce", "WriteOnly"):
            seen[kind, v] = access_text(rep, kind, path, v)
    for kind in ("register", "field"):
        vs = [v for k, v in seen if k == kind]
        for i, a in enumerate(vs):
            for b in vs[:i]:
                rep.require(seen[kind, a] != seen[kind, b], "access/%s/%s/%s" % (kind, a, b), "the %s line does not tell access %s from %s" % (kind, a, b))


def job(i):
    shape, arr = i
    rep = Report("C18")
    check_shape(rep, shape, arr)
    return rep


def check(rep):
    todo = [(s, "".join(k for k, b in zip("PCRF", f) if b)) for s in "RC" for f in [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 1, 1), (0, 1, 1, 0)] if s == "C" or not f[1]]
    for shape, arr in todo:
        check_shape(rep, shape, arr)
    for shape, arr in (("R", ""), ("C", ""), ("R", "RF"), ("C", "CRF")):
        check_shape(rep, shape, arr, full=True)
    for owned in (True, False):
        check_shape(rep, "R", "P", owned)
    check_access(rep)
    return ("The mmap command is analysed from its entry point once for each shape of the device (single elements and arrays, registers in peripherals and in clusters): on every path that does not fail, each element "
            "handed out by the nested iterations passes a statement that puts out a line made of the element's own attributes and of the sum of all enclosing offsets; the lines are sorted and printed.")
