"""`_delete` removes exactly the elements its specification matches."""
from flow import *

S = "$str"
REM_TRUE = {"extract_if", "position", "find", "rposition", "any", "drain_filter", "partition"}  # the closure says which elements go
KEEP_TRUE = {"retain", "retain_mut", "filter"}


def forms():
    """(name, document, path of the specifications, kinds of element addressed, path of the container, levels, options)"""
    out = []

    def add(name, mk, path, kinds, cont, levels, **kw):
        for sfx, v in (("", S), (" list", [S, S])):
            out.append((name + sfx, mk(v), path, kinds, cont, levels, kw))
    add("device", lambda v: {"_delete": v}, "/_delete", {"Peripheral"}, ("peripherals",), [])
    for nm, wrap, yp, cont, levels in (("peripheral", lambda r: {"P": r}, "/P", ("peripherals", "registers"), ["P"]), ("cluster", lambda r: {"P": {"_clusters": {"C": r}}}, "/P/_clusters/C", ("peripherals", "clusters()", "children"), ["P", "C"])):
        add(nm, lambda v, wrap=wrap: wrap({"_delete": v}), yp + "/_delete", {"Register", "Cluster"}, cont, levels)
        add(nm + " _registers", lambda v, wrap=wrap: wrap({"_delete": {"_registers": v}}), yp + "/_delete/_registers", {"Register"}, cont, levels)
        add(nm + " _clusters", lambda v, wrap=wrap: wrap({"_delete": {"_clusters": v}}), yp + "/_delete/_clusters", {"Cluster"}, cont, levels)
    add("interrupts", lambda v: {"P": {"_delete": {"_interrupts": v}}}, "/P/_delete/_interrupts", {"Interrupt"}, ("peripherals", "interrupt"), ["P"])
    add("interrupts of a derived peripheral", lambda v: {"P": {"_delete": {"_interrupts": v}}}, "/P/_delete/_interrupts", {"Interrupt"}, ("peripherals", "interrupt"), ["P"], derived=True)
    add("fields", lambda v: {"P": {"R": {"_delete": v}}}, "/P/R/_delete", {"Field"}, ("peripherals", "registers()", "fields"), ["P", "R"])
    add("fields in cluster", lambda v: {"P": {"_clusters": {"C": {"R": {"_delete": v}}}}}, "/P/_clusters/C/R/_delete", {"Field"}, ("peripherals", "clusters()", "registers()", "fields"), ["P", "C", "R"])
    return out


def disc_of(variant, derived, kinds):
    def disc(x, adt):
        if adt == OPTION and x.k == "P" and is_dev(x):
            if x.b == "derived_from":
                if owner_of(x) in kinds:
                    return None
                return {"Some"} if derived and owner_of(x) == "Peripheral" else {"None"}
            if x.b in ("fields", "registers", "interrupt"):
                return {"Some"}
        if variant and adt.rsplit("::", 1)[-1] == "RegisterCluster":
            return {variant}
        return None
    return disc


def hook_of(yp, answer, seen):
    def hook(c):
        if c.n != MATCH:
            return None
        sp = match_spec(c)
        if any(x.b.startswith(yp) for a in c.args[:1] for y in leaves(a) for x in [rootname(y)] if x.k == "Y"):
            if seen is not None:
                seen.append((c.eng, c.f, c.bb, set(c.args[1])))
            return {c.eng.TRUE if answer else c.eng.FALSE}
        own = {owner_of(x) for x in named(c.args[1])}
        if own == {"Cluster"} and "R" in sp or own == {"Register"} and "C" in sp:
            return {c.eng.FALSE}
        return {c.eng.TRUE}
    return hook


def within(t, cont):
    g = gchain(t)
    return g[:len(cont)] == cont or g == cont[:len(g)]


def choosers(eng, cont):
    """Calls that choose among the elements of the container by a closure -> [(frame, block, name, closure results)]"""
    out = []
    for f in eng.frames:
        for bb, (cal, args, dest) in f.calls.items():
            n = cal["n"].rsplit("::", 1)[-1]
            if n not in REM_TRUE | KEEP_TRUE or not args or cal.get("inst"):
                continue
            if cont not in {gchain(y) for y in reachable(args[0]) if y.k == "P"}:
                continue
            ms = {x.c for a in args[1:] for x in flat_refs(a) if x.k == "O" and x.b == "closure"}
            rs = {x for g in eng.frames for (key, m), kid in g.kids.items() if m in ms for x in kid.ret.v}
            if rs:
                out.append((f, bb, n, rs))
    return out


def reachable(atoms):
    """What an iterator or collection holds."""
    out, todo = set(), list(atoms)
    while todo and len(out) < 400:
        x = todo.pop()
        if x not in out:
            out.add(x)
            if x.k == "R":
                todo.extend(x.cell.v)
            elif x.k == "O":
                for c in x.cells.values():
                    todo.extend(c.v)
    return out


TAKEN = {"take", "replace", "swap"}
POSITION = {"take", "skip", "step_by", "nth", "truncate", "pop", "pop_front", "last", "first", "dedup", "split_first", "split_last", "split_off", "take_while", "skip_while", "chunks"}
CUT = {"remove", "swap_remove", "drain", "truncate", "clear", "pop", "split_off"}


def check_form(rep, form):
    name, doc, yp, kinds, cont, levels, kw = form
    own = kinds & {"Register", "Cluster"}
    for variant in ("Register", "Cluster") if own else ("Register",):
        addressed = not own or variant in own
        disc = disc_of(variant if own else None, kw.get("derived"), kinds)
        label = name + ("/" + variant if own else "")
        rep.count("scenarios")
        # no match: nothing goes
        seen = []
        r = patch_run(doc, hook=hook_of(yp, False, seen), disc=disc, keys=True)
        rep.count("frames", len(r.eng.frames))
        stays(rep, label, name, r.eng, cont, "does not match the specification")
        # match
        seen = []
        r = patch_run(doc, hook=hook_of(yp, True, seen), disc=disc, keys=True)
        if not addressed:
            stays(rep, label, name, r.eng, cont, "is of another kind")
            continue
        names(rep, label, name, seen, cont)
        es = []
        ch0 = choosers(r.eng, cont)
        for e in effects(r.eng):
            if ch0 and e.field in TAKEN and {gchain(t) for t in e.targets} <= {cont}:
                continue
            if all(within(t, cont) for t in e.targets) and (e.kind != "set" and e.field in CUT | KEEP_TRUE | REM_TRUE or e.kind == "set" and {gchain(t) for t in e.targets} <= {cont, cont[:-1]}):
                es.append(e)
            else:
                rep.violation(label + "/else", "%s: %s %s: also changes %s.%s" % (name, e.f.n, e.f.loc(e.bb), e.adt, e.field))
        rep.require(es, label, "%s: nothing removes the matching elements" % name)
        if not es:
            continue
        keys = {pkey(e.f, e.bb) for e in es}
        sel = lambda e, es=es: all(within(t, cont) for t in e.targets) and e.field in {x.field for x in es}
        if not choosers(r.eng, cont):
            continue  # a loop over the elements instead of a predicate: not decided here
        for f in r.eng.frames:
            for bb, (cal, args, dest) in f.calls.items():
                n = cal["n"].rsplit("::", 1)[-1]
                if n in POSITION and args and not cal.get("inst") and any(x.k == "Y" and (x.b == yp + "/0" or x.b == yp and n != "pop") for x in reachable(args[0])):
                    if not (len(args) > 1 and all(x.k == "K" and x.b == 0 for x in args[1])):
                        rep.violation(label + "/all", "%s: %s %s: `%s` leaves out specifications" % (name, f.n, f.loc(bb), n))
        for _, txt in must_many(doc, {label: (sel, es, True)}, {yp}, hook=hook_of(yp, True, None), disc=disc, keys=True):
            rep.violation(label + "/all", "%s: %s" % (label, txt))
        rep.ok(label + "/all")
        pts = {p for e in es for p in chain_points(r.eng, e, {yp})}
        mr = MustRun(doc, pts, {t for e in es for t in e.targets}, hook_of(yp, True, None), disc, (), None, True)
        ch = choosers(mr.eng, cont)
        for f, bb, n, rs in ch:
            want = mr.eng.TRUE if n in REM_TRUE else mr.eng.FALSE
            rep.require(rs == {want}, label, "%s: %s %s: an element that matches the specification may stay" % (name, f.n, f.loc(bb)))
        if not ch:
            rep.require(any(e.field in CUT for e in es), label, "%s: what goes is not decided per element" % name)
        rep.samples.append({"form": label, "removed by": sorted({"%s (%s) %s" % (e.f.n, e.f.loc(e.bb), e.field) for e in es})})


def stays(rep, label, name, eng, cont, why):
    ch = choosers(eng, cont)
    at = {(f, bb) for f, bb, n, rs in ch}
    for f, bb, n, rs in ch:
        want = eng.FALSE if n in REM_TRUE else eng.TRUE
        rep.require(rs == {want}, label, "%s: %s %s: an element that %s may be removed" % (name, f.n, f.loc(bb), why))
    for e in effects(eng):
        if (e.f, e.bb) in at:
            continue
        if (e.kind == "set" or e.field in TAKEN) and ch and {gchain(t) for t in e.targets} <= {cont, cont[:-1]}:
            continue
        rep.violation(label + "/else", "%s: %s %s changes %s.%s though the element %s" % (name, e.f.n, e.f.loc(e.bb), e.adt, e.field, why))


def names(rep, label, name, seen, cont):
    """The specification is compared with the unmodified names of the elements."""
    rep.require(seen, label + "/name", "%s: the specification is compared with no name" % name)
    for eng, f, bb, vals in seen:
        at = {gchain(x) for x in parts(vals) if x.k == "P"}
        ok = at and all(g[:len(cont)] == cont and (g[-1] == "name" or g == cont) for g in at)
        plain = all(not ns or whole(y) for y in flat_refs(vals) for ns in [y.k == "N"])
        rep.require(ok and plain, label + "/name", "%s: %s %s: the specification is compared with %s" % (name, f.n, f.loc(bb), sorted(".".join(g) for g in at)))


def whole(x):
    """Is the text node x the (unmodified) text it was made from?"""
    n, args = x.eng.ninfo[x][:2]
    if n.rsplit("::", 1)[-1] not in SAME:
        return False
    return all(whole(y) for a in args for y in flat_refs(a) if y.k == "N")


SAME = ("name", "as_str", "deref", "as_ref", "clone", "to_string", "to_owned", "borrow", "into", "from", "get_name", "next", "Candidate", "new", "expand", "parse")


def check(rep):
    for form in forms():
        check_form(rep, form)
    return ("One abstract document per form of `_delete` (single and list), kind of element and level. Matcher answering no: the predicate choosing what goes must keep every element. Matcher answering yes: it must give up every element of the "
            "addressed kind and keep others; the removal happens for every specification handed out and every matching parent (must-happen analysis); the specification is compared with the element's own name, and nothing else in the device changes.")
