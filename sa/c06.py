from core import *


# (rule id, document with SPEC, does an ignorable form "?~SPEC" exist for it)
def table(S):
    return {
        "peripheral": ({S: {"_strip": "$str"}}, True),
        "child of peripheral": ({"P": {S: {"_strip": "$str"}}}, True),
        "cluster of peripheral": ({"P": {"_clusters": {S: {"_strip": "$str"}}}}, True),
        "_modify child": ({"P": {"_modify": {S: {"size": "$int"}}}}, True),
        "_modify/_registers": ({"P": {"_modify": {"_registers": {S: {"size": "$int"}}}}}, True),
        "_modify/_clusters": ({"P": {"_modify": {"_clusters": {S: {"size": "$int"}}}}}, True),
        "_array of registers": ({"P": {"_array": {S: {"name": "$str"}}}}, True),
        "_cluster": ({"P": {"_cluster": {"C%s": {S: {"name": "$str"}, "R1": {"name": "$str"}}}}}, False),
        "_expand_array": ({"P": {"_expand_array": {S: {}}}}, False),
        "_expand_cluster": ({"P": {"_expand_cluster": {S: {}}}}, True),
        "_delete/_clusters": ({"P": {"_delete": {"_clusters": [S]}}}, True),
        "child of cluster": ({"P": {"_clusters": {"C": {S: {"_strip": "$str"}}}}}, True),
        "_modify child of cluster": ({"P": {"_clusters": {"C": {"_modify": {S: {"size": "$int"}}}}}}, True),
        "_array in cluster": ({"P": {"_clusters": {"C": {"_array": {S: {"name": "$str"}}}}}}, True),
        "_modify field": ({"P": {"R": {"_modify": {S: {"bitOffset": "$int"}}}}}, True),
        "_merge list": ({"P": {"R": {"_merge": [S]}}}, False),
        "_merge hash": ({"P": {"R": {"_merge": {"F": S}}}}, False, "/P/R/_merge/F"),
        "_merge hash list": ({"P": {"R": {"_merge": {"F": [S]}}}}, False, "/P/R/_merge/F/0"),
        "_split list": ({"P": {"R": {"_split": [S]}}}, True),
        "_split hash": ({"P": {"R": {"_split": {S: {"name": "$str"}}}}}, True),
        "_array of fields": ({"P": {"R": {"_array": {S: {"name": "$str"}}}}}, True),
        "field enum": ({"P": {"R": {S: {"E": ["$int", "$str"]}}}}, True),
        "field enum read": ({"P": {"R": {S: {"_read": {"E": ["$int", "$str"]}}}}}, True, "/P/R/%s/_read" % S),
        "field enum write": ({"P": {"R": {S: {"_W1C": {"E": ["$int", "$str"]}}}}}, True, "/P/R/%s/_W1C" % S),
        "field enum derived": ({"P": {"R": {S: {"_derivedFrom": "$str"}}}}, True),
        "field enum replaced": ({"P": {"R": {S: {"_replace_enum": {"E": ["$int", "$str"]}}}}}, True),
        "field write action": ({"P": {"R": {S: {"_W1C": {}}}}}, True, "/P/R/%s/_W1C" % S),
        "field read action": ({"P": {"R": {S: {"_RC": {}}}}}, True, "/P/R/%s/_RC" % S),
        "field range": ({"P": {"R": {S: ["$int", "$int"]}}}, True),
    }




def holds(eng, v, pred, depth=0):
    """Is v a Some/Ok wrapped entry (possibly the key of a (key, value) pair) satisfying pred?"""
    if depth > 4:
        return False
    if v.k == "O" and v.b == "adt" and v.c in ((OPTION, 1), (RESULT, 0)):
        return any(holds(eng, y, pred, depth + 1) for c in v.cells.values() for y in c.v)
    if depth and v.k == "O" and v.b == "tuple" and 0 in v.cells:
        return any(pred(z) for c in v.cells.values() for z in c.v)
    return bool(depth) and pred(v)


def glob_points(eng, S):
    """Matcher constructions for the spec."""
    bare = S[2:] if S.startswith("?~") else S
    parts = {S, bare} | set(bare.split(","))
    for f in eng.frames:
        for (bb, tag), (cal, args) in f.ext.items():
            if cal["n"].startswith("globset::") and cal["n"].endswith("::new"):
                if (consts(args[0]) | {x.c for x in leaves(args[0]) if x.k == "Y" and x.a == "str"}) & parts:
                    yield f, bb, tag


def entry_points(eng, pred, S):
    """Calls that hand out the rule entry: outermost in the call chain of each matcher construction, from which that
    construction is reached within the same activation. {(frame, block): values carrying the entry}"""
    out = {}
    cfg = Icfg(eng, bypass=True)
    cands = {}
    for f in eng.frames:
        for bb, (cal, args, dest) in f.calls.items():
            vs = frozenset(x for x in f.cell(dest[0]).v if holds(eng, x, pred))
            if vs:
                cands.setdefault(f, {})[bb] = vs
    for gf, gb, tag in glob_points(eng, S):
        last = None
        g = gf
        while g is not None:
            for b2, vs in cands.get(g, {}).items():
                others = {(g, b, 0) for b in cands[g]}
                r = cfg.reach([(g, b2, 1)], avoid=others, stop=lambda n, g=g: n[0] is g and n[0].body.blocks[n[1]][1][0] == "ret")
                if (gf, gb, 0) in r:
                    last = (g, b2, vs)
            g = g.parent
        if last:
            out[last[:2]] = last[2]
    return out


def spec_hook(S):
    bare = S[2:] if S.startswith("?~") else S
    parts = {S, bare} | set(bare.split(","))

    def hook(c):
        if c.n == MATCH and match_spec(c) & parts:
            return {c.eng.FALSE}
        return None
    return hook


def run_one(rep, name, S, doc, optional, noop=True, at=None):
    r = patch_run(doc, hook=spec_hook(S), keys=True)
    eng = r.eng
    pred = (lambda z: z.k == "Y" and z.b == at) if at else (lambda z: (z.k == "Y" and z.c == S) or (z.k == "K" and z.b == S))
    eff = effects(eng)
    pts = entry_points(eng, pred, S)
    if not pts:
        raise Anchor("%s: no point where rule entry %r is taken from the patch and matched" % (name, S))
    for (f, b), force in sorted(pts.items(), key=lambda kv: kv[0][0].id):
        top = eng.continue_from(f, b, force)
        ok = may_ok(eng, top.ret.v)
        rep.count("continuations")
        what = "%s spec %r, entry read in %s at %s" % (name, S, f.n, f.loc(b))
        key = "%s/%s" % (name, "optional" if optional else "required")
        rep.samples.append({"obligation": key, "entry": what, "run can succeed": ok, "frames": len(eng.frames)})
        if optional:
            rep.require(ok, key, "%s: optional rule that matches nothing always fails" % what)
        else:
            rep.require(not ok, key, "%s: a run can succeed although nothing matched" % what)
    if optional and noop:
        rep.require(not eff, "%s/optional-noop" % name, "%s spec %r: optional rule that matches nothing still changes the device: %s" % (name, S, eff[:2]))
    rep.count("frames", len(eng.frames))
    rep.count("scenarios")


def check(rep):
    specs = ["SPEC*", "SPA?,SPB*"]
    for S in specs:
        for name, (doc, opt, *at) in table(S).items():
            run_one(rep, name, S, doc, False, at=at[0] if at else None)
            if opt:
                O = "?~" + S
                d2, _, *at2 = table(O)[name]
                run_one(rep, name, O, d2, True, noop=opt is True, at=at2[0] if at2 else None)
    return ("For every rule kind that addresses existing elements by name, and for plain, wildcard and comma-separated specifications, the patch pipeline is analysed "
            "from its public entry point on an abstract device with a document holding just that rule, every matcher built from the specification answering 'no'. From the point "
            "where the rule entry is taken from the document, no continuation may return Ok from the whole run; with the optional marker a successful continuation must exist and no "
            "mutation of the device may be reachable.")
