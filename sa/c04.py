"""No failure is swallowed: whatever fallible step fails, the run as a whole fails."""
import json
import os

import c10
from core import *

S, I = "$str", "$int"
E = {"E": [I, S]}


def k(*tables, drop=()):
    return {n: v[0] for t in tables for n, v in t.items() if n not in drop}


FIELD = {**k(c10.FIELD, c10.DIM, c10.BITS["offset"]), "writeConstraint": [I, I]}
MSB = k(c10.BITS["lsbmsb"])
RANGE = k(c10.BITS["range"])
INDEX = {"dim": I, "dimIncrement": I, "dimIndex": [S], "dimArrayIndex": {"headerEnumName": S, "E": [I, S]}}
REG = {**k(c10.REGISTER, c10.DIM), "writeConstraint": [I, I], "fields": {"F": FIELD, "G": {**MSB, **INDEX, "writeConstraint": "enum"}, "H": {**RANGE, "writeConstraint": "none"}}}
CLU = {**k(c10.CLUSTER, c10.DIM), "registers": {"R": REG}}
INT = k(c10.INTERRUPT)
BLOCK = k(c10.BLOCK)
PER = {**k(c10.PERIPHERAL, c10.DIM), "registers": {"R": REG}, "interrupts": {"I": INT}}
PERB = {**PER, "addressBlock": BLOCK}
PERBS = {**PER, "addressBlocks": [BLOCK]}
ENUMS = {"E": E, "F": {"_read": E, "_write": E}, "G": {"_RM": E, "_W1C": E}, "H": {"_replace_enum": E}, "J": {"_derivedFrom": S}, "K": [I, I], "L": {"_name": S, **E}}


def block(extra):
    d = {
        "_delete": [S], "_copy": {"N": {"_from": "M", **REG}, "_registers": {"N2": {"_from": "M"}}, "_clusters": {"N2": {"_from": "M"}}}, "_strip": [S], "_strip_end": [S], "_prefix": S, "_suffix": S,
        "_modify": {"R": REG, "_registers": {"R": REG}, "_clusters": {"C": CLU}}, "_clear_fields": [S], "_add": {"N": REG, "_registers": {"N": REG}, "_clusters": {"N": CLU}},
        "_derive": {"N": "M", "N2": {"_from": "M", **REG}, "_registers": {"N": "M", "N2": {"_from": "M", **REG}}, "_clusters": {"N": "M", "N2": {"_from": "M"}}}, "R": {"_prefix": S},
        "_expand_array": {"R": {}}, "_array": {"R": {"name": S, "description": S, "displayName": S, "dimIncrement": I, **ENUMS}},
        "_cluster": {"C%s": {"R": {"name": S, "description": S, "F": E}, "description": S, "dimIncrement": I}, "D": {"R": {"name": S, "F": E}}},
        "_clusters": {"C": {"_prefix": S}},
    }
    d.update(extra)
    return d


def documents():
    dev = lambda per: {
        "_delete": [S], "_copy": {"N": {"from": "M"}, "N2": {"from": "F:M"}},
        "_modify": {**k(c10.DEVICE), "cpu": k(c10.CPU), "_peripherals": {"P": per}, "P": per}, "_clear_fields": [S], "_add": {"N": per},
        "_derive": {"N": "M", "N2": {"_from": "M", **per}}, "_rebase": {"N": "M"}, "P": {"_prefix": S}}
    yield "device", dev(PERB)
    yield "device (address blocks)", dev(PERBS)
    yield "device (derived)", {"_add": {"N": {**PERB, "derivedFrom": S}}}
    pm = {"R": REG, "_interrupts": {"I": INT}, "_clusters": {"C": CLU}, "_registers": {"R": REG}}
    pa = {"N": REG, "_interrupts": {"I": INT}, "_clusters": {"C": CLU}, "_registers": {"R": REG}}
    yield "peripheral", {"P": block({"_modify": pm, "_add": pa, "_expand_cluster": [S]})}
    yield "peripheral (other forms)", {"P": block({"_delete": {"_registers": [S], "_clusters": [S], "_interrupts": [S]}, "_strip": S, "_array": {"R": {}},
                                                  "_expand_cluster": {"C": {"_preindex": S, "_postindex": S, "_zeroindex": "$bool", "_noprefix": "$bool"}}})}
    yield "peripheral (texts)", {"P": {"_delete": S, "_strip": S, "_clear_fields": S, "_expand_cluster": S}}
    yield "cluster", {"P": {"_clusters": {"C": block({})}}}
    yield "cluster (other forms)", {"P": {"_clusters": {"C": block({"_delete": {"_registers": [S], "_clusters": [S]}, "_array": {"R": {}}})}}}
    yield "cluster (texts)", {"P": {"_clusters": {"C": {"_delete": S, "_strip": S, "_clear_fields": S}}}}
    reg = {"_delete": [S], "_strip": [S], "_strip_end": [S], "_prefix": S, "_suffix": S, "_clear": [S], "_modify": {"F": FIELD}, "_add": {"N": FIELD}, "_derive": {"N": "M", "N2": {"_from": "M", **FIELD}},
           "_merge": {"F": S, "G": [S]}, "_split": {"F": {"name": S, "description": S}}, "_array": {"F": {"name": S, "description": S}}, **ENUMS}
    yield "register", {"P": {"R": reg}}
    yield "register (other forms)", {"P": {"R": {**reg, "_merge": [S], "_split": [S], "_array": {"F": {}}, "_modify": {"F": {**MSB, **INDEX, "writeConstraint": "enum"}}, "_add": {"N": RANGE}}}}
    yield "register (texts)", {"P": {"R": {"_delete": S, "_merge": S, "_split": S, "_clear": S}}}


def disc(x, adt):
    if adt == OPTION and x.k == "P" and is_dev(x):
        if x.b == "derived_from":
            return {"None"}
    return None


def disc_derived(x, adt):
    if adt == OPTION and x.k == "P" and is_dev(x) and x.b == "derived_from":
        return {"Some"}
    return None


def whole(c):
    """The patching itself is covered by the documents above."""
    if c.n.endswith("patch::process_reader"):
        return {c.node(tag="patched")}
    return None


# callee name fragments whose Result says nothing about a failure of the run
NEUTRAL = ("from_residual", "anyhow::Ok", "std::fmt::", "Iterator::", "FromResidual")


BUFFERED = ("std::io::BufWriter", "std::io::LineWriter", "std::io::buffered")


def sites(eng):
    out = {}
    for f in eng.frames:
        for bb, (cal, args, dest) in f.calls.items():
            if dest[1] or eng.T[dest[2]].get("n") != RESULT or any(s in cal["n"] for s in NEUTRAL) or dest[0] not in f.cells:
                continue
            out.setdefault((f.m, bb), []).append((f, cal, args))
    return out


def inject(eng, f, bb):
    o = eng.obj((0, "inj"), "adt", (RESULT, 1))
    eng.join(eng.ocell(o, 0), {eng.sym("$fault")})
    top = eng.continue_from(f, bb, {o})
    if not all(x.ret.v for x in eng.cont_chain if x is not top):
        return False  # aborts
    return may_ok(eng, top.ret.v)


def optional_kinds(cal, args):
    """Derived peripherals only take the hash forms of these keys (interrupts); other forms are not meant for them."""
    return cal["n"].endswith("get_hash") and bool(consts(args[1]) & {"_delete", "_modify", "_add"})


def check(rep):
    runs = []
    for name, doc in documents():
        runs.append((name, patch_run(doc, disc=disc, keys=True).eng, optional_kinds if name.startswith("device") else None))
    runs.append(("derived peripheral", patch_run({"P": {"_delete": {"_interrupts": [S]}, "_modify": {"_interrupts": {"I": INT}}, "_add": {"_interrupts": {"I": INT}}}},
                                                 disc=disc_derived, keys=True).eng, optional_kinds))
    F, B = facts()[0], facts()[1]
    for pat in ("patch::process_file", "patch::patch_cli::patch", "patch::patch_cli::expand_patch", "patch::yaml_includes", "convert::convert_cli::convert", "makedeps::makedeps_cli::makedeps",
                "interrupts::interrupts_cli::parse_device", "mmap::mmap_cli::parse_device", "html::htmlcompare_cli::htmlcompare", "html::html_cli::svd2html"):
        runs.append((pat, Run(F, fn(F, pat), {}, hook=whole).eng, None))
    nlib = len(runs)
    runs.append(("cli", Run(B, fn(B, "cli::Command::run"), {}, hook=whole).eng, None))
    runs.append(("main", Run(B, fn(B, "main"), {}, hook=whole).eng, None))
    jobs, seen = [], set()
    for i, (name, eng, skip) in enumerate(runs):
        for key, l in sites(eng).items():
            skey = (i >= nlib,) + key
            if skey in seen:
                continue
            l = [(f, cal, args) for f, cal, args in l if not (skip and skip(cal, args))]
            if not l:
                continue
            seen.add(skey)
            jobs.append((i, l[0][0], key[1], l[0][1]["n"]))
        rep.count("roots")
        rep.count("frames", len(eng.frames))
    n = min(8, os.cpu_count() or 1)
    res = parallel(lambda j: inject(runs[jobs[j][0]][1], jobs[j][1], jobs[j][2]), len(jobs), n)
    funcs = set()
    for j, (i, f, bb, cn) in enumerate(jobs):
        key = "%s/%s" % (f.n, cn.rsplit("::", 1)[-1])
        funcs.add(f.n)
        rep.require(not res[j], key, "%s (%s): a failure of `%s` does not make the run fail (document: %s)" % (f.n, f.loc(bb), cn, runs[i][0]))
    codes = {(f, bb, x.b if x.k == "K" else None) for f in runs[-1][1].frames for bb, (cal, args, _) in f.calls.items() if cal["n"] == "std::process::exit" for x in args[0]}
    for f, bb, v in codes:
        rep.require(v not in (0, None), "%s/exit" % f.n, "%s (%s): a failure ends the program with exit status %s" % (f.n, f.loc(bb), v))
    for name, eng, _ in runs[nlib - 10:]:
        cfg, errs = None, None
        for f in eng.frames:
            for bb, (cal, args, _) in f.calls.items():
                if cal["n"].startswith(BUFFERED) and cal["n"].rsplit("::", 1)[-1] in ("new", "with_capacity"):
                    cfg = cfg or Icfg(eng)
                    errs = errs or err_nodes(eng)
                    flush = {(g, b, 0) for g in eng.frames for b, (k2, _, _) in g.calls.items() if k2["n"].rsplit("::", 1)[-1] in ("flush", "into_inner", "into_parts")}
                    root = eng.frames[0]
                    r = cfg.reach([(f, bb, 1)], avoid=flush | errs)
                    end = [n for n in r if n[0] is root and root.body.blocks[n[1]][1][0] == "ret" and n[2] == 0]
                    rep.require(not end, "%s/flush" % f.n, "%s (%s): the buffered output is never flushed, so a failure to write the rest of it is lost" % (f.n, f.loc(bb)))
    rep.count("exit statuses", len(codes))
    rep.count("fallible calls", len(jobs))
    rep.samples += [{"function": x, "sites": sum(1 for _, f, _, _ in jobs if f.n == x)} for x in sorted(funcs)]
    rep.jobs, rep.runs = jobs, runs
    return ("Every call that returns a Result and is reached from the command entry points or while processing the listed patch documents is forced to fail in turn; the rest of the run is re-analysed "
            "from there and must not be able to return Ok.")
