"""`_add` refuses an element whose name is already taken."""
from core import *

import c10

PLAIN = {
    "_add peripheral": ({"_add": {"NEW": {"description": "$str"}}}, {"Peripheral"}),
    "_add register": ({"P": {"_add": {"NEW": {"description": "$str"}}}}, {"Register"}),
    "_add _registers": ({"P": {"_add": {"_registers": {"NEW": {"description": "$str"}}}}}, {"Register"}),
    "_add _clusters": ({"P": {"_add": {"_clusters": {"NEW": {"description": "$str"}}}}}, {"Cluster"}),
    "_add _interrupts": ({"P": {"_add": {"_interrupts": {"NEW": {"value": "$int"}}}}}, {"Interrupt"}),
    "_add _interrupts (derived peripheral)": ({"P": {"_add": {"_interrupts": {"NEW": {"value": "$int"}}}}}, {"Interrupt"}),
    "_add register in cluster": ({"P": {"_clusters": {"C": {"_add": {"NEW": {"description": "$str"}}}}}}, {"Register"}),
    "_add _registers in cluster": ({"P": {"_clusters": {"C": {"_add": {"_registers": {"NEW": {"description": "$str"}}}}}}}, {"Register"}),
    "_add _clusters in cluster": ({"P": {"_clusters": {"C": {"_add": {"_clusters": {"NEW": {"description": "$str"}}}}}}}, {"Cluster"}),
    "_add field": ({"P": {"R": {"_add": {"NEW": {"bitOffset": "$int"}}}}}, {"Field"}),
}


def keys(*tables):
    return {k: v[0] for t in tables for k, v in t.items() if k != "name"}


def wider(doc, more):
    """The document with the attributes `more` given to the element it adds."""
    return {k: dict(more) if k == "NEW" else wider(v, more) for k, v in doc.items()}


RICH = {
    "Peripheral": keys(c10.PERIPHERAL, c10.DIM),
    "Register": keys(c10.REGISTER, c10.DIM),
    "Cluster": keys(c10.CLUSTER, c10.DIM),
    "Interrupt": keys(c10.INTERRUPT),
    "Field": keys(c10.FIELD, c10.BITS["offset"], c10.DIM),
}
FORMS = dict(PLAIN)
FORMS.update({n + " (all keys)": (wider(d, RICH[next(iter(k))]), k) for n, (d, k) in PLAIN.items()})
FORMS["_add peripheral (derived, all keys)"] = (wider(PLAIN["_add peripheral"][0], {**RICH["Peripheral"], "derivedFrom": "$str"}), {"Peripheral"})

GETTERS = {"get_peripheral": "Peripheral", "get_mut_peripheral": "Peripheral", "get_interrupt": "Interrupt", "get_register": "Register", "get_mut_register": "Register",
           "get_field": "Field", "get_mut_field": "Field", "get_cluster": "Cluster", "get_mut_cluster": "Cluster"}


def names(atoms, kinds):
    return any(x.k == "P" and x.b == "name" and is_dev(x) and owner_of(x) in kinds for x in leaves(atoms)) \
        or any(x.k == "N" and x.eng.ninfo[x][0] == "svd_rs::Name::name" for x in leaves(atoms))


def key(atoms):
    return "NEW" in consts(atoms) or any(x.k == "Y" and x.c == "NEW" for x in leaves(atoms))


def elements(atoms, kinds):
    return any(x.k == "P" and is_dev(x) and owner_of(x) in kinds for x in leaves(atoms))


def hook_for(kinds, answer, derived):
    def hook(c):
        nm = c.n.rsplit("::", 1)[-1]
        if len(c.args) == 2 and nm in ("eq", "ne"):
            for a, b in ((0, 1), (1, 0)):
                if names(c.args[a], kinds) and key(c.args[b]):
                    return {c.eng.TRUE if answer == (nm == "eq") else c.eng.FALSE}
        if nm in GETTERS and GETTERS[nm] in kinds and len(c.args) == 2 and key(c.args[1]) and c.n.startswith("svd_rs"):
            return c.some({c.node(tag="v")}) if answer else {c.none()}
        if nm in ("contains", "contains_key") and len(c.args) == 2 and key(c.args[1]):
            el = set(c.args[0])
            for x in c.a(0):
                el |= c.eng.elems(c, x, "exc")
            if names(el, kinds):
                return {c.eng.TRUE if answer else c.eng.FALSE}
        if c.n == MATCH and kinds != {"Cluster"} and any(x.k == "P" and x.b == "name" and owner_of(x) == "Cluster" for x in leaves(c.args[1])) and "C" not in match_spec(c):
            return {c.eng.FALSE}
        return None
    return hook


def post_for(kinds):
    """An element of that name is there: searches for it do not come back empty-handed."""
    def post(c, r):
        nm = c.n.rsplit("::", 1)[-1]
        if c.tag != ():
            return r
        if nm in ("any", "find", "position", "rposition", "find_map", "rfind"):
            rets = [k.ret.v for (kk, m), k in c.f.kids.items() if kk[0] == c.bb and k.ret.v]
            sure = not rets or any(all(x is c.eng.TRUE for x in v) or (nm == "find_map" and not any(x.k == "U" for x in v)) for v in rets)
            el = set()
            for x in c.a(0):
                el |= c.eng.elems(c, x, "ex")
            if sure and (elements(el, kinds) or elements(c.args[0], kinds)):
                return {x for x in r if x is not c.eng.FALSE and not (x.k == "U" and x.a == OPTION)}
        if nm in ("count", "len") and r:
            el = set()
            for x in r:
                if x.k == "N":
                    el |= {z for a in c.eng.ninfo[x][1] for y in a for z in c.eng.elems(c, y, "ex") | {y}}
            if elements(el, kinds):
                return {c.node("len>=1", tag="ge1")}
        if nm == "next" and elements({y for x in r for y in leaves({x})}, kinds):
            return {x for x in r if not (x.k == "U" and x.a == OPTION)}
        return r
    return post


def init(eng, kinds):
    eng.post = post_for(kinds)
    eng.hook_bin = lambda f, bb, op, s1, s2: len_cmp(eng, op, s1, s2)


def insertions(eng, kinds):
    out = []
    for e in effects(eng):
        for o, a, v in sinks(e):
            if a == "name" and o in kinds and key(v):
                out.append(e)
    return out


def check(rep):
    for name, (doc, kinds) in FORMS.items():
        derived = "(derived peripheral)" in name

        def disc(x, adt):
            if adt == OPTION and x.k == "P" and is_dev(x) and x.b == "derived_from":
                return {"Some"} if derived else {"None"}
            return None

        # nothing of that name: the element is inserted (the check is not vacuous)
        r = patch_run(doc, hook=hook_for(kinds, False, derived), disc=disc)
        ins = insertions(r.eng, kinds)
        if not rep.require(ins, name + "/inserts", "%s: no element named by the rule is ever inserted" % name):
            continue
        rep.samples.append({"rule": name, "inserted at": sorted({"%s (%s)" % (e.f.n, e.f.loc(e.bb)) for e in ins})})
        r2 = patch_run(doc, hook=hook_for(kinds, True, derived), disc=disc, init=lambda eng: init(eng, kinds))
        for e in insertions(r2.eng, kinds):
            rep.violation(name + "/refused", "%s: %s (%s) inserts the element although the parent already has one of that name" % (name, e.f.n, e.f.loc(e.bb)))
        rep.ok(name + "/refused")
        # the run fails: from the hand-out of the rule entry no successful end is reachable
        pts = entries(r2.eng)
        rep.require(pts, name + "/entry", "%s: the rule entry is never taken from the document" % name)
        for (f, bb), force in pts.items():
            top = r2.eng.continue_from(f, bb, force)
            rep.require(not may_ok(r2.eng, top.ret.v), name + "/error", "%s: the run can succeed although the name is taken (entry read in %s at %s)" % (name, f.n, f.loc(bb)))
        rep.ok(name + "/error")
        rep.count("frames", len(r.eng.frames) + len(r2.eng.frames))
        rep.count("forms")
    rep.rule = "with the name comparison answering `equal`, no insertion of an element of that name is reachable and no success is reachable from where the rule entry is read"
    return ("Every form of `_add` is analysed on an abstract device, once with all name comparisons between existing elements of that kind and the key of the rule answering `different` "
            "(the insertion must be reachable) and once answering `equal` (it must not be).")


def entries(eng, name="NEW"):
    out = {}
    for f in list(eng.frames):
        for bb, (cal, args, dest) in f.calls.items():
            if dest[1] or dest[0] not in f.cells:
                continue
            pay = set()
            for x in f.cells[dest[0]].v:
                if x.k == "O" and x.b == "adt" and x.c == (OPTION, 1):
                    for c in x.cells.values():
                        for y in c.v:
                            if y.k == "O" and y.b == "tuple" and 0 in y.cells and any((z.k == "Y" and z.c == name) or (z.k == "K" and z.b == name) for z in y.cells[0].v):
                                pay.add(x)
            if pay:
                out[(f, bb)] = pay
    return out


ASSUME = ["names are compared with ==, a matcher, a keyed lookup or one of the svd-rs getters"]
