"""A malformed value is refused: a patch value of the wrong type, or an unknown word where a keyword belongs, makes the run fail."""
import os

import c10
import c33
from core import *
from core import _pay

S, I = "$str", "$int"
WORD = "no such word"
WORDS = ("access", "readAction", "modifiedWriteValues", "usage", "endian", "bitRange")


PARSE = ("parse_str", "from_bit_range", "parse_indexes", "parse", "from_str", "from_str_radix")


def hook(c):
    last = c.n.rsplit("::", 1)[-1]
    if last in PARSE and c.args and WORD in {x.b for x in leaves(c.args[0]) if x.k == "K"} | {x.c for x in leaves(c.args[0]) if x.k == "Y"}:
        if c.n.startswith("svd_rs::"):
            return {c.eng.NONE}
        return c.err({c.eng.sym("$parse")}, "parse")
    return c10.hook(c)


disc = c10.disc
CFG = {"update_fields": True, "enum_derive": (DERIVE, "None")}


# rules that also take a hash
HASHES = {p + k for p in ("", "cluster ", "register ") for k in ("_delete", "_merge", "_split", "_expand_cluster")}


def bad_values(rule, key, good, wide=False):
    if rule in HASHES:
        return ["$bool"]
    if rule == "field":
        return [[I]]  # a scalar is an option of an enclosing rule
    if isinstance(good, dict):
        return [I, [I]] if good else [I]
    if isinstance(good, list):
        return [I]
    out = [{"k": I}] if good in (I, "$bool") else [{"k": I}, "$bool", 7]
    if good == I:
        out.append(WORD)
    if wide:
        out += [1 << 32, -1]
    if good == "$bool":
        out += [WORD, 2]
    if key in WORDS:
        out.append(WORD)
    return out


def blocks():
    """(rule, context, value): rule blocks; the value is what the context is filled with."""
    X = "X"
    yield "_copy", lambda v: {"_copy": v}, {"N": {"from": X}}
    yield "_copy peripheral", lambda v: {"_copy": {"N": v}}, {"from": X}
    yield "_copy from", lambda v: {"_copy": {"N": {"from": v}}}, X
    for k, v in (("_modify", {X: {"name": S}}), ("_add", {"N": {"name": S}}), ("_derive", {"N": X}), ("_rebase", {"N": X})):
        yield k, (lambda k: lambda v: {k: v})(k), v
    yield "_modify _peripherals", lambda v: {"_modify": {"_peripherals": v}}, {X: {"name": S}}
    yield "_modify cpu", lambda v: {"_modify": {"cpu": v}}, {"name": S}
    yield "_modify peripheral", lambda v: {"_modify": {X: v}}, {"name": S}
    yield "_modify interrupts", lambda v: {"_modify": {X: {"interrupts": v}}}, {"I": {"name": S}}
    yield "_modify interrupt", lambda v: {"_modify": {X: {"interrupts": {"I": v}}}}, {"name": S}
    yield "_modify addressBlock", lambda v: {"_modify": {X: {"addressBlock": v}}}, {"size": I}
    yield "_modify addressBlocks", lambda v: {"_modify": {X: {"addressBlocks": v}}}, [{"size": I}]
    yield "_add peripheral", lambda v: {"_add": {"N": v}}, {"name": S}
    for k, v in (("registers", {"R": {"name": S}}), ("interrupts", {"I": {"name": S}}), ("addressBlock", {"size": I}), ("addressBlocks", [{"size": I}])):
        yield "_add peripheral " + k, (lambda k: lambda v: {"_add": {"N": {k: v}}})(k), v
    yield "_rebase peripheral", lambda v: {"_rebase": {"N": v}}, X
    yield "_derive peripheral", lambda v: {"_derive": {"N": v}}, X
    yield "_derive peripheral from", lambda v: {"_derive": {"N": {"_from": v}}}, X
    for k in ("_delete", "_clear_fields"):
        yield k, (lambda k: lambda v: {k: v})(k), X
        yield k + " list", (lambda k: lambda v: {k: [v]})(k), X
        yield k + " list 2", (lambda k: lambda v: {k: [X, v]})(k), X
    yield "peripheral", lambda v: {X: v}, {"_prefix": S}
    for lvl, ctx, pre in (("peripheral", lambda h: {"P": h}, ""), ("cluster", lambda h: {"P": {"_clusters": {"C": h}}}, "cluster ")):
        c = lambda f: (lambda v, ctx=ctx: ctx(f(v)))
        for k, v in (("_modify", {X: {"name": S}}), ("_add", {"N": {"name": S}}), ("_derive", {"N": X}), ("_copy", {"N": {"_from": X}}), ("_array", {X: {"name": S}}), ("_expand_array", {X: {}}),
                     ("_cluster", {"C%s": {X: {"name": S}}})):
            yield pre + k, c(lambda v, k=k: {k: v}), v
        for k in ("_strip", "_strip_end", "_prefix", "_suffix", "_clear_fields", "_delete"):
            yield pre + k, c(lambda v, k=k: {k: v}), X
            if k not in ("_prefix", "_suffix"):
                yield pre + k + " list", c(lambda v, k=k: {k: [v]}), X
                if k != "_delete":
                    yield pre + k + " list 2", c(lambda v, k=k: {k: [X, v]}), X
        for k in ("_registers", "_clusters") + (("_interrupts",) if not pre else ()):
            yield pre + "_delete " + k, c(lambda v, k=k: {"_delete": {k: v}}), [X]
            n = k[1:-1]
            yield pre + "_modify " + k, c(lambda v, k=k: {"_modify": {k: v}}), {X: {"name": S}}
            yield pre + "_modify %s X" % k, c(lambda v, k=k: {"_modify": {k: {X: v}}}), {"name": S}
            yield pre + "_add " + k, c(lambda v, k=k: {"_add": {k: v}}), {"N": {"name": S}}
            yield pre + "_add %s X" % k, c(lambda v, k=k: {"_add": {k: {"N": v}}}), {"name": S}
        yield pre + "_derive _registers", c(lambda v: {"_derive": {"_registers": v}}), {"N": X}
        yield pre + "_derive _registers X", c(lambda v: {"_derive": {"_registers": {"N": v}}}), X
        yield pre + "_copy _registers", c(lambda v: {"_copy": {"_registers": v}}), {"N": {"_from": X}}
        yield pre + "_copy X", c(lambda v: {"_copy": {"N": v}}), {"_from": X}
        yield pre + "_copy X _from", c(lambda v: {"_copy": {"N": {"_from": v}}}), X
        yield pre + "_modify X", c(lambda v: {"_modify": {X: v}}), {"name": S}
        yield pre + "_add X", c(lambda v: {"_add": {"N": v}}), {"name": S}
        yield pre + "_add X fields", c(lambda v: {"_add": {"N": {"fields": v}}}), {"F": {"name": S}}
        yield pre + "_derive X", c(lambda v: {"_derive": {"N": v}}), X
        yield pre + "_derive X _from", c(lambda v: {"_derive": {"N": {"_from": v}}}), X
        yield pre + "_array X", c(lambda v: {"_array": {X: v}}), {"name": S}
        yield pre + "_array X name", c(lambda v: {"_array": {X: {"name": v}}}), S
        yield pre + "_array X description", c(lambda v: {"_array": {X: {"description": v}}}), S
        yield pre + "_cluster C", c(lambda v: {"_cluster": {"C%s": v}}), {X: {"name": S}}
        yield pre + "_cluster C X", c(lambda v: {"_cluster": {"C%s": {X: v}}}), {"name": S}
        yield pre + "_cluster C X name", c(lambda v: {"_cluster": {"C%s": {X: {"name": v}}}}), S
        yield pre + "register", c(lambda v: {X: v}), {"_prefix": S}
    yield "_clusters", lambda v: {"P": {"_clusters": v}}, {X: {"_prefix": S}}
    yield "_clusters X", lambda v: {"P": {"_clusters": {X: v}}}, {"_prefix": S}
    yield "_expand_cluster", lambda v: {"P": {"_expand_cluster": v}}, X
    yield "_expand_cluster list", lambda v: {"P": {"_expand_cluster": [v]}}, X
    yield "_expand_cluster hash", lambda v: {"P": {"_expand_cluster": {X: v}}}, {"_preindex": S}
    for k, v in (("_preindex", S), ("_postindex", S), ("_zeroindex", "$bool"), ("_noprefix", "$bool")):
        yield "_expand_cluster " + k, (lambda k: lambda v: {"P": {"_expand_cluster": {X: {k: v}}}})(k), v
    reg = lambda f: (lambda v: {"P": {"R": f(v)}})
    for k, v in (("_modify", {X: {"name": S}}), ("_add", {"N": {"name": S}}), ("_derive", {"N": X}), ("_array", {X: {"name": S}})):
        yield "register " + k, reg(lambda v, k=k: {k: v}), v
    for k in ("_delete", "_strip", "_strip_end", "_prefix", "_suffix", "_clear", "_merge", "_split"):
        yield "register " + k, reg(lambda v, k=k: {k: v}), X
        if k not in ("_prefix", "_suffix"):
            yield "register " + k + " list", reg(lambda v, k=k: {k: [v]}), X
            if k not in ("_merge", "_split"):
                yield "register " + k + " list 2", reg(lambda v, k=k: {k: [X, v]}), X
    yield "register _modify X", reg(lambda v: {"_modify": {X: v}}), {"name": S}
    yield "register _add X", reg(lambda v: {"_add": {"N": v}}), {"name": S}
    yield "register _derive X", reg(lambda v: {"_derive": {"N": v}}), X
    yield "register _derive X _from", reg(lambda v: {"_derive": {"N": {"_from": v}}}), X
    yield "register _array X", reg(lambda v: {"_array": {X: v}}), {"name": S}
    yield "register _array X name", reg(lambda v: {"_array": {X: {"name": v}}}), S
    yield "register _merge hash", reg(lambda v: {"_merge": {"N": v}}), X
    yield "register _split hash", reg(lambda v: {"_split": {X: v}}), {"name": S}
    yield "register _split name", reg(lambda v: {"_split": {X: {"name": v}}}), S
    yield "field", reg(lambda v: {X: v}), {"E": [I, S]}
    yield "field range", reg(lambda v: {X: [I, v]}), I
    yield "enumeratedValue", reg(lambda v: {X: {"E": v}}), [I, S]
    yield "enumeratedValue value", reg(lambda v: {X: {"E": [v, S]}}), I
    yield "enumeratedValue description", reg(lambda v: {X: {"E": [I, v]}}), S
    for k in ("_read", "_write", "_replace_enum", "_RM", "_W1C"):
        yield "field " + k, reg(lambda v, k=k: {X: {k: v}}), {"E": [I, S]}
    yield "field _name", reg(lambda v: {X: {"_name": v, "E": [I, S]}}), S
    yield "field _derivedFrom", reg(lambda v: {X: {"_derivedFrom": v}}), S


def hole(d, path=""):
    if d == "$hole":
        return path
    for k, v in (d.items() if isinstance(d, dict) else enumerate(d) if isinstance(d, list) else ()):
        r = hole(v, "%s/%s" % (path, k))
        if r is not None:
            return r
    return None


def under(yp, h):
    return yp == h or h.startswith(yp + "/")


def entry_points(eng, h):
    """Where the entries on the way to the value are handed out -> {(frame, block): is the entry put to use there?}"""
    out = {}
    for f in eng.frames:
        for bb, (cal, args, dest) in f.calls.items():
            if dest[1] or dest[0] not in f.cells or cal["n"].rsplit("::", 1)[-1] not in ("next", "next_back"):
                continue
            pay, none = _pay(eng, f.cells[dest[0]])
            if not pay or not none or not any(under(y, h) and y for y in ypaths(pay)):
                continue
            r = local_reach(f, some_starts(f, bb), avoid={bb}) | set(some_starts(f, bb))
            use = [b for b in r & set(f.calls) for a in f.calls[b][1] if any(under(y, h) and y for y in ypaths(a))]
            out[f, bb] = bool(use)
    return out


def bad_run(doc, pts, tg, inner):
    """-> run in which the points always hand out an element, {point that can be passed without a failure: path}"""
    mr = MustRun(doc, pts, tg, hook, disc, inner, CFG, True)
    cfg, errs = Icfg(mr.eng), err_nodes(mr.eng)
    cyc = {}
    for f, bb in mr.points:
        r = cfg.reach([(f, bb, 1)], avoid=errs)
        if (f, bb, 0) in r:
            cyc[f, bb] = r
    return mr, cyc


def check_one(rep, rule, ctx, good, key=None, wide=False):
    eng = patch_run(ctx(good), hook=hook, disc=disc, config=CFG, keys=True).eng
    rep.count("frames", len(eng.frames))
    pts, inner, tg = set(), set(), set()
    h = hole(ctx("$hole"))
    for e in effects(eng):
        pts |= set(chain_points(eng, e, {h}))
        inner |= set(inner_points(eng, e, e.targets, {h}))
        tg |= set(e.targets)
    for p, use in entry_points(eng, h).items():
        if use:
            pts.add(p)
    for b in bad_values(rule, key, good, wide):
        mr, cyc = bad_run(ctx(b), pts, tg, inner)
        label = "%s = %s" % (rule, b)
        mr2, cyc2, keys = mr, cyc, set()
        while cyc2:
            # what is passed there may be refused elsewhere (a loop that only gathers entries, options of an enclosing rule): the run has to fail without them too
            keys |= {pkey(*p) for p in cyc2}
            mr2, cyc2 = bad_run(ctx(b), {p for p in pts if pkey(*p) not in keys}, tg, inner)
        if not may_ok(mr2.eng, mr2.fr.ret.v):
            cyc = {}
        rep.require(not may_ok(mr.eng, mr.fr.ret.v), label, "%s: a run can succeed although the value is %s" % (rule, b))
        for (f, bb), r in cyc.items():
            rep.violation(label, "%s: the value %s is ignored: %s %s goes on with the next element (%s)" % (rule, b, f.n, f.loc(bb), trace(mr.eng, r, (f, bb, 0), stop=(f, bb, 1))))
        rep.require(may_err(mr.eng, mr.fr.ret.v), label + "/analysed", "%s: the rule is not reached by the analysis (value %s)" % (rule, b))
        rep.count("frames", len(mr.eng.frames))
        rep.count("malformed values")


def check(rep):
    jobs = []
    for name, ctx, pfx, tables, names in c33.levels():
        for t in tables:
            for g in c33.groups(t):
                for k, v in g.items():
                    jobs.append(("%s/%s" % (name, k), lambda b, k=k, g=g, ctx=ctx: ctx({**{q: w[0] for q, w in g.items()}, k: b}), v[0], k, bool(v[2] & c10.INT32)))
    for name, ctx, pfx, keys, kw in c10.levels():
        for g in c10.groups(keys):
            for k, v in g.items():
                jobs.append(("%s/%s" % (name, k), lambda b, k=k, g=g, ctx=ctx: ctx({**{q: w[0] for q, w in g.items()}, k: b}), v[0], k, bool(v[2] & c10.INT32)))
    jobs += [j + (None,) for j in blocks()]
    jobs.append(("_cluster C dimIncrement", lambda b: {"P": {"_cluster": {"C%s": {"X": {"name": S}, "dimIncrement": b}}}}, I, None, True))
    facts()

    def job(i):
        r = Report(rep.prop)
        check_one(r, *jobs[i])
        return r

    rep.count("places", len(jobs))
    for r in parallel(job, len(jobs), min(8, os.cpu_count() or 1)):
        rep.merge(r)
    return ("For each place of a patch where a value can stand, the patch code was analysed with that value replaced by values of other types (and, for keywords, by an unknown word), "
            "the places on the way handing out the entry: no successful return and no way to go on with the next entry may remain.")
