"""A rule takes effect on every element its specification matches; C32: also when it is marked optional."""
from core import *
from models import MODELS

S = "$str"
DREG = {"Register.derived_from"}
ENUM = {"EnumeratedValues.name", "EnumeratedValues.values", "EnumeratedValue.name", "EnumeratedValue.value"}


def rows(m):
    """(name, document with specification marker m, path of the rule, selected attribute writes; None = each of its effects)"""
    P, R, C, F = m + "P", m + "R", m + "C", m + "F"
    out = [
        ("peripheral rule", {P: {"_prefix": S}}, "/" + P, None),
        ("register rule", {"P": {R: {"_prefix": S}}}, "/P/" + R, None),
        ("cluster rule", {"P": {"_clusters": {C: {"_prefix": S}}}}, "/P/_clusters/" + C, None),
        ("plain cluster rule", {"P": {C: {"_prefix": S}}}, "/P/" + C, None),
        ("register in cluster rule", {"P": {"_clusters": {"C": {R: {"_prefix": S}}}}}, "/P/_clusters/C/" + R, None),
        ("_modify register", {"P": {"_modify": {R: {"size": "$int"}}}}, "/P/_modify/" + R, {"Register.size"}),
        ("_modify cluster", {"P": {"_modify": {C: {"description": S}}}}, "/P/_modify/" + C, {"Cluster.description"}),
        ("_modify _registers", {"P": {"_modify": {"_registers": {R: {"size": "$int"}}}}}, "/P/_modify/_registers/" + R, {"Register.size"}),
        ("_modify _clusters", {"P": {"_modify": {"_clusters": {C: {"description": S}}}}}, "/P/_modify/_clusters/" + C, {"Cluster.description"}),
        ("_modify field", {"P": {"R": {"_modify": {F: {"name": S}}}}}, "/P/R/_modify/" + F, {"Field.name"}),
        ("_modify register in cluster", {"P": {"_clusters": {"C": {"_modify": {R: {"size": "$int"}}}}}}, "/P/_clusters/C/_modify/" + R, {"Register.size"}),
        ("_modify field in cluster", {"P": {"_clusters": {"C": {"R": {"_modify": {F: {"name": S}}}}}}}, "/P/_clusters/C/R/_modify/" + F, {"Field.name"}),
        ("_derive register", {"P": {"_derive": {R: "M"}}}, "/P/_derive/" + R, DREG),
        ("_derive field", {"P": {"R": {"_derive": {F: "M"}}}}, "/P/R/_derive/" + F, {"Field.derived_from"}),
        ("field enum", {"P": {"R": {F: {"E": ["$int", S]}}}}, "/P/R/" + F, ENUM),
        ("field _replace_enum", {"P": {"R": {F: {"_replace_enum": {"E": ["$int", S]}}}}}, "/P/R/" + F, ENUM),
        ("field _read", {"P": {"R": {F: {"_read": {"E": ["$int", S]}}}}}, "/P/R/" + F, ENUM),
        ("field _write", {"P": {"R": {F: {"_write": {"E": ["$int", S]}}}}}, "/P/R/" + F, ENUM),
        ("field range", {"P": {"R": {F: ["$int", "$int"]}}}, "/P/R/" + F, None),
        ("field _RM", {"P": {"R": {F: {"_RM": {"E": ["$int", S]}}}}}, "/P/R/" + F, {"Field.read_action"}),
        ("field _W1C", {"P": {"R": {F: {"_W1C": {"E": ["$int", S]}}}}}, "/P/R/" + F, {"Field.modified_write_values"}),
        ("field bare _W1C", {"P": {"R": {F: {"_W1C": {}}}}}, "/P/R/" + F, {"Field.modified_write_values"}),
    ]
    if not m:
        out += [
            ("_modify peripheral", {"_modify": {"P": {"name": S}}}, "/_modify/P", {"Peripheral.name"}),
            ("_modify _peripherals", {"_modify": {"_peripherals": {"P": {"name": S}}}}, "/_modify/_peripherals/P", {"Peripheral.name"}),
            ("_clear_fields of peripherals", {"_clear_fields": [S]}, "/_clear_fields", None),
            ("_clear_fields of registers", {"P": {"_clear_fields": [S]}}, "/P/_clear_fields", None),
            ("_clear_fields of registers in cluster", {"P": {"_clusters": {"C": {"_clear_fields": [S]}}}}, "/P/_clusters/C/_clear_fields", None),
            ("_clear of fields", {"P": {"R": {"_clear": [S]}}}, "/P/R/_clear", None),
        ]
        for k in ("_strip", "_strip_end", "_prefix", "_suffix"):
            out += [
                ("%s of registers" % k, {"P": {k: S}}, "/P/" + k, None),
                ("%s of registers in cluster" % k, {"P": {"_clusters": {"C": {k: S}}}}, "/P/_clusters/C/" + k, None),
                ("%s of fields" % k, {"P": {"R": {k: S}}}, "/P/R/" + k, None),
            ]
    return out


SOME = ("fields", "registers", "interrupt", "display_name", "alternate_register", "alternate_cluster", "header_struct_name", "address_block")


def disc(x, adt):
    if adt == OPTION and x.k == "P" and is_dev(x):
        if x.b == "derived_from":
            return {"None"}
        if x.b in SOME:
            return {"Some"}
    return None


# kind of element a rule may find derived (only rules for the content of an element are without effect on derived elements)
LEAVES_DERIVED = ("peripheral rule", "register rule", "cluster rule", "plain cluster rule", "register in cluster rule", "_clear_fields", "_clear of fields")


def derived_ok(name):
    kinds = set() if name.startswith("_clear") else {"Field"}
    if not name.startswith(LEAVES_DERIVED):
        for k in ("Register", "Cluster", "Peripheral"):
            if (k.lower() in name or name.startswith("_modify _%ss" % k.lower())) and not name.startswith("field") and "field" not in name and not (k == "Cluster" and "in cluster" in name):
                kinds.add(k)

    def f(x, adt):
        if adt == OPTION and x.k == "P" and is_dev(x) and x.b == "derived_from" and owner_of(x) in kinds:
            return None
        return disc(x, adt)
    return f


def free(x, adt):
    """As disc, but elements may be derived."""
    return None if adt == OPTION and x.k == "P" and x.b == "derived_from" else disc(x, adt)


def hook_of(name):
    cl = "cluster" in name

    def hook(c):
        if c.n == MATCH:
            own = {owner_of(x) for x in named(c.args[1])}
            sp = {s.lstrip("?~") for s in match_spec(c)}
            # a register spec matches no cluster and the other way round
            if own == {"Cluster"} and "R" in sp or own == {"Register"} and "C" in sp:
                return {c.eng.FALSE}
            # a text that has the affix to strip
            if not (sp & {"P", "R", "C", "F"}):
                return {c.eng.TRUE}
        if c.n.endswith("str>::is_char_boundary"):
            # the text matched begins and ends with whole characters
            return {c.eng.TRUE}
        if c.n.endswith("str>::get"):
            return {x for x in MODELS[c.n](c) if x is not c.eng.NONE}
        if c.n == "std::cmp::PartialEq::eq" and any(chain_of(x)[-2:] in (["[0]", "usage"], ["[1]", "usage"]) for a in c.args for x in leaves(a) if x.k == "P"):
            # of two enumerations of one field, one has the usage in question
            return {c.eng.TRUE}
        return None
    return hook


def group(e):
    return frozenset("%s.%s" % (o, a) for o, a, v in sinks(e)), frozenset(apath(t)[:] for t in e.targets)


def run(rep, m, of=None):
    for name, doc, yp, only in rows(m):
        if of is not None and not name.startswith(of):
            continue
        hook = hook_of(name)
        d = derived_ok(name)
        cfg = {"update_fields": True, "enum_derive": (DERIVE, "None")}
        base = {pkey(e.f, e.bb) for e in effects(patch_run(prune(doc, yp), hook=hook, disc=d, config=cfg, keys=True).eng)}
        r = patch_run(doc, hook=hook, disc=d, config=cfg, keys=True)
        ev = [e for e in effects(r.eng) if pkey(e.f, e.bb) not in base]
        items = {}
        if only is not None:
            sel = (lambda only: lambda e: bool(group(e)[0] & only) and not (only == DREG and e.kind == "set"))(only)
            es = [e for e in ev if sel(e) and not (e.kind == "call" and e.field in ("push", "get_or_insert_with", "get_or_insert", "insert") and owners(e) & {"Register", "Peripheral"} and "derive" in name)]
            if es:
                items[name] = (sel, es, True)
        else:
            for e in ev:
                g = group(e)
                lab = "%s: %s" % (name, "+".join(sorted(g[0])) + " of " + "+".join(sorted(".".join(t[2:]) for t in g[1])))
                if lab in items:
                    items[lab][1].append(e)
                else:
                    items[lab] = ((lambda g: lambda e: group(e) == g)(g), [e], True)
        rep.require(items, name + "/effect", "%s: the rule has no effect on the element it addresses" % name)
        for label, txt in must_many(doc, items, {yp}, hook=hook, disc=d, config=cfg, keys=True):
            rep.violation(label + "/all", "%s: %s" % (label, txt))
        # iterations are not cut short by derived elements either
        r2 = patch_run(doc, hook=hook, disc=free, config=cfg, keys=True)
        wanted = {pkey(e.f, e.bb): label for label, i in items.items() for e in i[1]}
        g2, er2, memo = Icfg(r2.eng), err_nodes(r2.eng), {}
        for e in effects(r2.eng):
            label = wanted.get(pkey(e.f, e.bb))
            if label is None:
                continue
            pts = chain_points(r2.eng, e, {yp})
            for f, bb in pts:
                if (f, bb) not in memo:
                    memo[f, bb] = early_exit(g2, er2, pts, f, bb)
                    if memo[f, bb]:
                        rep.violation(label + "/all", "%s: %s (%s): the iteration at %s (%s) can end successfully before all matching elements were visited (%s)"
                                      % (label, e.f.n, e.f.loc(e.bb), f.n, f.loc(bb), memo[f, bb]))
        for label in items:
            rep.ok(label + "/all")
        rep.samples.append({"rule": name, "effects": {l: sorted({"%s (%s)" % (e.f.n, e.f.loc(e.bb)) for e in i[1]}) for l, i in items.items()}})
        rep.count("rules")
        rep.count("effects", len(items))
        rep.count("frames", len(r.eng.frames))


def owners(e):
    return {owner_of(t) for t in e.targets}


def prune(doc, yp):
    """The document without the rule at path yp."""
    ks = yp.strip("/").split("/")

    def go(d, ks):
        d = dict(d)
        if len(ks) == 1:
            d.pop(ks[0])
        else:
            d[ks[0]] = go(d[ks[0]], ks[1:])
        return d
    return go(doc, ks)


RULE = ("for every rule kind: once every element its specification matches is handed out, each of the rule's effects happens on it, the loop runs to its end, and nothing (skip, take, filter, early exit) between "
        "the device and the effect leaves an element out")


def check(rep):
    run(rep, "")
    rep.rule = RULE
    return ("One abstract document per rule kind, interpreted from patch::process_reader; the rule's effects are those that vanish when the rule is removed from the document; the must-happen analysis runs on the "
            "interprocedural CFG with the matcher answering yes for the addressed elements.")


ASSUME = ["the addressed containers exist and are not derived; the addressed element may be derived only where the rule does not concern its content", "optional names (displayName, alternateRegister, ..) are present in the strip/prefix rows"]
