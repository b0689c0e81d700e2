"""A rule is applied to the names its specification covers and leaves the others alone."""
from flow import *
import c31
from c31 import DERIVE
from c34 import whole, reachable, POSITION

PATS = ("A", "B*")


def more():
    """Rules with a specification that c31 has no row for: (name, document, path)"""
    S = "$str"
    R4 = {"name": S, "description": S}
    return [
        ("_merge list", {"P": {"R": {"_merge": ["A,B*"]}}}, "/P/R/_merge"),
        ("_merge", {"P": {"R": {"_merge": "A,B*"}}}, "/P/R/_merge"),
        ("_merge named", {"P": {"R": {"_merge": {"N": "A,B*"}}}}, "/P/R/_merge"),
        ("_split", {"P": {"R": {"_split": "A,B*"}}}, "/P/R/_split"),
        ("_split list", {"P": {"R": {"_split": ["A,B*"]}}}, "/P/R/_split"),
        ("_split named", {"P": {"R": {"_split": {"A,B*": R4}}}}, "/P/R/_split"),
        ("_array of registers", {"P": {"_array": {"A,B*": {}}}}, "/P/_array"),
        ("_array of fields", {"P": {"R": {"_array": {"A,B*": {}}}}}, "/P/R/_array"),
        ("_cluster", {"P": {"_cluster": {"N": {"A,B*": {}}}}}, "/P/_cluster"),
        ("_expand_array", {"P": {"_expand_array": {"A,B*": {}}}}, "/P/_expand_array"),
        ("_expand_cluster", {"P": {"_expand_cluster": ["A,B*"]}}, "/P/_expand_cluster"),
        ("_delete of peripherals", {"_delete": "A,B*"}, "/_delete"),
        ("_delete of registers", {"P": {"_delete": ["A,B*"]}}, "/P/_delete"),
        ("_delete of interrupts", {"P": {"_delete": {"_interrupts": "A,B*"}}}, "/P/_delete"),
        ("_delete of fields", {"P": {"R": {"_delete": "A,B*"}}}, "/P/R/_delete"),
        ("_modify _interrupts", {"P": {"_modify": {"_interrupts": {"A,B*": {"description": S}}}}}, "/P/_modify"),
        ("_array of registers in cluster", {"P": {"_clusters": {"C": {"_array": {"A,B*": {}}}}}}, "/P/_clusters/C/_array"),
        ("_expand_array in cluster", {"P": {"_clusters": {"C": {"_expand_array": {"A,B*": {}}}}}}, "/P/_clusters/C/_expand_array"),
        ("_cluster in cluster", {"P": {"_clusters": {"C": {"_cluster": {"N": {"A,B*": {}}}}}}}, "/P/_clusters/C/_cluster"),
        ("_delete in cluster", {"P": {"_clusters": {"C": {"_delete": ["A,B*"]}}}}, "/P/_clusters/C/_delete"),
        ("_delete _registers", {"P": {"_delete": {"_registers": "A,B*"}}}, "/P/_delete"),
        ("_delete _clusters", {"P": {"_delete": {"_clusters": "A,B*"}}}, "/P/_delete"),
        ("_clear_fields of registers in cluster", {"P": {"_clusters": {"C": {"_clear_fields": ["A,B*"]}}}}, "/P/_clusters/C/_clear_fields"),
        ("_clear_fields of peripherals", {"_clear_fields": ["A,B*"]}, "/_clear_fields"),
        ("_clear_fields of registers", {"P": {"_clear_fields": ["A,B*"]}}, "/P/_clear_fields"),
        ("_clear of fields", {"P": {"R": {"_clear": ["A,B*"]}}}, "/P/R/_clear"),
    ]


def put(d, yp, key):
    ks = yp.strip("/").split("/")

    def go(d, ks):
        out = {}
        for k, v in d.items():
            if k == ks[0]:
                out[key if len(ks) == 1 else k] = v if len(ks) == 1 else go(v, ks[1:])
            else:
                out[k] = v
        return out
    return go(d, ks)


def sub(v, s):
    if isinstance(v, dict):
        return {(s if k == "A,B*" else k): sub(x, s) for k, x in v.items()}
    if isinstance(v, list):
        return [sub(x, s) for x in v]
    return s if v == "A,B*" else v


def doc_texts(d):
    if isinstance(d, dict):
        return set(d) | {k[2:] for k in d} | set().union(*[doc_texts(v) for v in d.values()], set())
    if isinstance(d, (list, tuple)):
        return set().union(*[doc_texts(v) for v in d], set())
    return {d}


class Scen:
    def __init__(self, name, doc, own, answers, d, cfg, kind=None):
        self.seen = {}
        self.foreign = {}
        texts = doc_texts(doc)
        base = c31.hook_of(name)

        def hook(c):
            if c.n == MATCH:
                for s in match_spec(c) - ALL - texts:
                    self.foreign[s] = (c.f, c.bb)
                sp = match_spec(c) & own
                at = {owner_of(x) for x in named(c.args[1])}
                if sp and (kind == "R" and at == {"Cluster"} or kind == "C" and at == {"Register"}):
                    return {c.eng.FALSE}  # the rule of a register finds no cluster and the other way round
                if sp:
                    for s in sp:
                        self.seen.setdefault(s, []).append((c.f, c.bb, set(c.args[1])))
                    return {c.eng.TRUE if answers.get(s) else c.eng.FALSE for s in sp}
            return base(c)
        self.run = patch_run(doc, hook=hook, disc=d, config=cfg, keys=True)
        self.eng = self.run.eng
        self.effects = {pkey(e.f, e.bb): e for e in effects(self.eng)}


CFG = {"update_fields": True, "enum_derive": (DERIVE, "None")}
ALL = {"A", "B*", "A,B*", "?~A", "A{B", "Z}", "B", "Z", "A{B,Z}"}


def created(e):
    """An element added to a container (rules that derive an element add it when it is missing)."""
    return e.kind == "call" and e.field in ("push", "get_or_insert_with", "get_or_insert", "insert", "extend")


def back(e):
    """A container is taken apart and put together again from its own elements."""
    if e.kind == "call" and e.field in ("take", "replace"):
        return True
    if e.kind == "call" and e.field in ("push", "extend"):
        return all(x.k == "P" and is_dev(x) for a in e.args[1:] for x in flat_refs(a))
    return False


def others(name, e):
    """Effects a rule may have though its specification matches nothing."""
    if name.startswith("_derive"):
        return created(e)
    if name.startswith("_modify"):
        return any(gchain(t)[-1:] == ("derived_from",) for t in e.targets) or e.field == "derived_from"  # references to a renamed peripheral
    return back(e)


def spec_rows():
    for n, doc, yp, _ in c31.rows(""):
        if not n.startswith(("_clear", "_strip", "_prefix", "_suffix")):
            yield n, put(doc, yp, "A,B*"), yp, c31.prune(doc, yp)
    for n, doc, yp in more():
        yield n, doc, yp, c31.prune(doc, yp)


MARKED = ("_modify peripheral", "_modify _peripherals", "_modify _interrupts", "_merge", "_delete", "_clear", "_expand_array")  # have no optional form


def check_row(rep, n, doc, yp, rest):
    d = c31.derived_ok(n)
    base = set(Scen(n, rest, ALL, {}, d, CFG).effects)
    rep.count("rules")

    def run(spec, ans):
        s = Scen(n, sub(doc, spec), ALL, ans, d, CFG, yp[-1])
        rep.count("scenarios")
        rep.count("frames", len(s.eng.frames))
        s.new = {k: e for k, e in s.effects.items() if k not in base}
        consulted(rep, n, s)
        return s
    none = run("A,B*", {})
    for k, e in none.new.items():
        rep.require(others(n, e), n + "/none", "%s: %s (%s) changes %s.%s of an element no pattern matches" % (n, e.f.n, e.f.loc(e.bb), e.adt, e.field))
    rep.ok(n + "/none")
    brace = run("A{B,Z}", {})
    rep.require(set(brace.seen) == {"A{B,Z}"}, n + "/patterns", "%s: the patterns consulted for `A{B,Z}` are %s" % (n, sorted(brace.seen)))
    full = run("A,B*", {"A": 1, "B*": 1})
    want = set(full.new)
    rep.require(set(full.seen) == set(PATS), n + "/patterns", "%s: the patterns consulted for `A,B*` are %s" % (n, sorted(full.seen)))
    rep.require(want - set(none.new), n + "/effect", "%s: the rule has no effect on what it matches" % n)
    for spec, ans, only in (("A,B*", {"A": 1}, PATS), ("A,B*", {"B*": 1}, PATS), ("A{B,Z}", {"A{B,Z}": 1}, ("A{B,Z}",)), ("?~A", {"A": 1}, ("A",))):
        if spec[:2] == "?~" and n.startswith(MARKED):
            continue
        s = run(spec, ans)
        rep.require(set(s.seen) == set(only), n + "/patterns", "%s: the patterns consulted for `%s` are %s" % (n, spec, sorted(s.seen)))
        lost = [full.effects[k] for k in want - set(s.new) if not others(n, full.effects[k])]
        rep.require(not lost, n + "/each", "%s: with a match of pattern `%s` in `%s` only, the rule does not reach %s" % (n, list(ans)[0], spec, ["%s (%s)" % (e.f.n, e.f.loc(e.bb)) for e in lost[:2]]))
    rep.samples.append({"rule": n, "effects": sorted({"%s (%s)" % (e.f.n, e.f.loc(e.bb)) for e in full.new.values()})[:8]})


def consulted(rep, n, s):
    """The pattern is taken as it stands, the name as it is in the device, and both are compared case-sensitively."""
    eng = s.eng
    for t, (f, bb) in s.foreign.items():
        if t == "*" and n.startswith("_clear"):
            continue  # all fields of a matching element
        rep.violation(n + "/patterns", "%s: %s %s: names are also compared with `%s`" % (n, f.n, f.loc(bb), t))
    for f in eng.frames:
        for bb, (cal, args, dest) in f.calls.items():
            nm = cal["n"]
            if nm.rsplit("::", 1)[-1] in POSITION and has_match(f) and args and any(x.k == "K" and x.b in ALL for x in reachable(args[0])):
                rep.violation(n + "/patterns", "%s: %s %s: `%s` leaves out patterns" % (n, f.n, f.loc(bb), nm.rsplit("::", 1)[-1]))
            if not nm.startswith("globset::"):
                continue
            last = nm.rsplit("::", 1)[-1]
            if last == "new" and args and "Candidate" not in nm:
                if consts(args[0]) & ALL or any(x.k == "Y" and x.c in ALL for x in leaves(args[0])):
                    rep.require(all(x.k in "KY" for x in flat_refs(args[0])), n + "/text", "%s: %s %s: the pattern is not the text of the specification" % (n, f.n, f.loc(bb)))
            elif last in ("case_insensitive", "literal_separator") and len(args) > 1:
                rep.require(all(x is eng.FALSE for x in args[1]), n + "/text", "%s: %s %s: `%s` changes what a pattern covers" % (n, f.n, f.loc(bb), last))
            elif last == "backslash_escape" and len(args) > 1:
                rep.require(all(x is eng.TRUE for x in args[1]), n + "/text", "%s: %s %s: `%s` changes what a pattern covers" % (n, f.n, f.loc(bb), last))
    for pat, uses_ in s.seen.items():
        for f, bb, vals in uses_:
            at = {gchain(x) for x in parts(vals) if x.k == "P"}
            ok = at and all(g[-1] in ("name", "registers", "children") or g[-1].endswith("()") for g in at)
            plain = all(y.k != "N" or whole(y) for y in flat_refs(vals)) or n.startswith("_array") and any(y.k == "P" for y in flat_refs(vals))  # the array takes the place of its first element
            rep.require(ok and plain, n + "/name", "%s: %s %s: the pattern is compared with %s" % (n, f.n, f.loc(bb), sorted(".".join(g) for g in at)))


def check(rep):
    for row in spec_rows():
        check_row(rep, *row)
    return ("One abstract document per rule kind that takes a specification, interpreted with the matcher answering no for every pattern (then the rule has no effect), yes for each pattern of `A,B*` alone, for the alternation `A{B,Z}` and for the "
            "optional form `?~A` (then it has all its effects); the patterns handed to the glob library are the texts of the specification, the names compared those of the device.")
