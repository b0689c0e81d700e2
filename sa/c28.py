"""Rules for a field (enumerated values, read and write actions) write what they say."""
from flow import *
import c31
from c31 import DERIVE

READ = {"_read": None, "_RM": "Modify", "_RS": "Set", "_RC": "Clear", "_RME": "ModifyExternal"}
WRITE = {"_write": None, "_WM": "Modify", "_WS": "Set", "_WC": "Clear", "_W1S": "OneToSet", "_W0C": "ZeroToClear", "_W1C": "OneToClear", "_W0S": "ZeroToSet", "_W1T": "OneToToggle", "_W0T": "ZeroToToggle"}
ACTION = {"Field.read_action", "Field.modified_write_values"}
YP = "/P/R/F"
EV = "EnumeratedValues"
RW = ("ReadWrite", "ReadWriteOnce", None)
GROW = ("push", "insert", "extend", "extend_from_slice", "push_mut")


def wrap(v):
    return {"P": {"R": {"F": v}}}


def variant(eng, x):
    """Variant name of a unit or object of an enum."""
    if x.k == "U":
        return eng.adts[x.a]["v"][x.b]["n"]
    if x.k == "O" and x.b == "adt":
        return eng.adts[x.c[0]]["v"][x.c[1]]["n"]
    return None


def plain(eng, x):
    """Python value of an option/number/text/enum atom, `...` when unknown."""
    v = variant(eng, x)
    if v == "None" and x.k == "U" and x.a == OPTION:
        return None
    if v == "Some":
        ps = {plain(eng, y) for c in x.cells.values() for y in c.v}
        return ps.pop() if len(ps) == 1 else ...
    if v is not None:
        return v
    return x.b if x.k == "K" else ...


def usages_of(x, have):
    """Usages the atom may stand for, given those of the existing enumerations; None when it is no usage of these."""
    g = gchain(x)
    if "enumerated_values" not in g[:-1]:
        return None
    i = len(g) - 1 - g[::-1].index("enumerated_values")
    if g[-1] != "usage" and g[-2:] != ("usage", "Some"):
        return None
    ix = g[i + 1]
    if ix.startswith("[") and ix[1:-1].isdigit() and int(ix[1:-1]) < len(have):
        return {have[int(ix[1:-1])]}
    return set(have)


class Scen:
    def __init__(self, body, access=None, raccess=None, have=None, auto="None", first=True, other=None, names=None, hits=None, wide=False, twice=False):
        self.doc = wrap(body)
        self.cfg = {"update_fields": True, "enum_derive": (DERIVE, auto)}
        d0, h0 = c31.derived_ok("field enum"), c31.hook_of("field enum")
        self.asked = set()

        def disc(x, adt):
            if x.k == "P" and is_dev(x):
                g = gchain(x)
                if g[-1:] == ("access",) and adt == OPTION:
                    own = owner_of(x)
                    if own in ("Field", "Register"):
                        return {"Some"} if (access if own == "Field" else raccess) else {"None"}
                if adt.endswith("::Access"):
                    return {access if any(s.startswith("fields") for s in g) else raccess}
                if have is not None and (adt == OPTION or adt.endswith("::Usage")):
                    us = usages_of(x, have)
                    if us:
                        self.asked.add("usage")
                        return {("Some" if u else "None") if adt == OPTION else u for u in us if adt == OPTION or u}
                if other is not None and owner_of(x) == EV and g[-1] in ("derived_from", "name", "usage") and adt == OPTION:
                    return {"None"} if g[-1] == "derived_from" and not other.get("derived") or g[-1] == "usage" and not other.get("usage") else {"Some"}
                if other is not None and adt.endswith("::Usage") and other.get("usage"):
                    return {other["usage"]}
            if x.k == "U" or x.k == "O":
                return None
            if hits is not None and adt.rsplit("::", 1)[-1] == "Entry":
                self.asked.add("hit")
                return {"Occupied"} if hits else {"Vacant"}
            return d0(x, adt)

        def eq(c, neg):
            if have is not None:
                sides = []
                for a in c.args[:2]:
                    vs = set()
                    for x in flat_refs(a):
                        if x.k != "P":
                            continue
                        u = usages_of(x, have)
                        if u is None:
                            return None
                        vs |= u
                    # (values written by an earlier round are left aside: the usages are those of the first)
                    for x in flat_refs(a) if not vs else ():
                        v = plain(c.eng, x) if x.k in "UO" else ...
                        if v is not ...:
                            vs.add(v)
                    sides.append(vs)
                if any(usages_of(x, have) for a in c.args[:2] for x in flat_refs(a) if x.k == "P") and all(sides):
                    r = {c.eng.TRUE if (p == q) != neg else c.eng.FALSE for p in sides[0] for q in sides[1]}
                    self.asked |= {"usage"} if len(r) == 1 else {"usage", "mixed"}
                    return r
            if names is not None:
                at = {gchain(x) for a in c.args[:2] for x in leaves(a) if x.k == "P"}
                ks = {k for a in c.args[:2] for k in consts(a)} | {x.c for a in c.args[:2] for x in leaves(a) if x.k == "Y"}
                if "X" in ks or any(x.k == "Y" and x.b.startswith(YP) for a in c.args[:2] for x in leaves(a)):
                    if any(g[-1:] == ("name",) or g[-2:] == ("name", "Some") for g in at):
                        own = "ev" if any("enumerated_values" in g for g in at) else "field"
                        self.asked.add(own)
                        if own in names:
                            return {c.eng.TRUE if names[own] != neg else c.eng.FALSE}
            return None

        def hook(c):
            last = c.n.rsplit("::", 1)[-1]
            if c.n.startswith("std::cmp::PartialEq") and last in ("eq", "ne"):
                return eq(c, last == "ne")
            if have is not None and last in ("is_empty", "len") and c.args and "inst" not in c.callee and all(x.k == "P" and gchain(x)[-1:] == ("enumerated_values",) for x in flat_refs(c.args[0])):
                self.asked.add("len")
                return {c.eng.const("int", len(have))} if last == "len" else {c.eng.FALSE if have else c.eng.TRUE}
            if other is not None and c.n.endswith("EnumeratedValues::usage"):
                return {c.eng.NONE} if other.get("derived") else c.some({c.eng.unitv("svd_rs::Usage", c.eng.variant_index("svd_rs::Usage", other.get("usage", "ReadWrite")))})
            if hits is not None and c.args and "inst" not in c.callee:
                own = c.n.rsplit("::", 2)[-2] if "::" in c.n else ""
                if any(x.k == "K" and x.b == 3 for a in c.args[1:] for x in flat_refs(a)):
                    if last in ("contains_key", "contains"):
                        self.asked.add("hit")
                        return {c.eng.TRUE if hits else c.eng.FALSE}
                    if last == "insert" and c.dty is not None:
                        t = c.eng.T[c.dty]
                        if t.get("k") == "bool" or t.get("n") == OPTION:
                            self.asked.add("hit")
                            if hits:
                                return {c.eng.FALSE} if t.get("k") == "bool" else c.some({c.node(tag="old")})
            if wide and last == "len" and c.args and any(x.k == "N" and x.eng.ninfo[x][0].endswith("bit_width") or x.k == "P" and gchain(x)[-1:] in (("bit_width()",), ("width",)) for x in reachable(c.args[0])):
                self.asked.add("wide")
                return {c.eng.const("int", 2)}
            return h0(c)

        def init(eng):
            def hb(f, bb, op, s1, s2):
                if op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    return None
                def length(s):
                    return have is not None and s and all(x.k == "N" and eng.ninfo[x][0] in ("un:PtrMetadata", "len") and all(y.k == "P" and gchain(y)[-1:] == ("enumerated_values",) for a in eng.ninfo[x][1] for y in flat_refs(a)) for x in s)
                if length(s1) and len(s2) == 1 and next(iter(s2)).k == "K" or length(s2) and len(s1) == 1 and next(iter(s1)).k == "K":
                    self.asked.add("len")
                    a, b = (len(have), next(iter(s2)).b) if length(s1) else (next(iter(s1)).b, len(have))
                    return {eng.TRUE if {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op] else eng.FALSE}
                if op in ("Eq", "Ne") and any(any(offset(x) for x in leaves(s)) for s in (s1, s2)):
                    self.asked.add("first")
                    return {eng.TRUE if (op == "Eq") == first else eng.FALSE}
                return None
            eng.hook_bin = hb
        def post(c, r):
            # one more of the enumerations looked for is found (outside loops)
            if c.n.rsplit("::", 1)[-1] in ("next", "next_back") and c.bb not in local_reach(c.f, [c.bb]) and any(x.k == "P" and "fields()" in gchain(x) for x in reachable(c.args[0])) and (
                    not any(variant(c.eng, x) == "Some" for x in r) or any(x.k == "P" and owner_of(x) == EV for x in payload(c.eng, r))):
                self.asked.add("twice")
                return {x for x in r if variant(c.eng, x) == "Some"}
            return r

        init0 = init

        def init(eng):
            init0(eng)
            if twice:
                eng.post = post
        self.hook, self.disc, self.init = hook, disc, init
        self.run = patch_run(self.doc, hook=hook, disc=disc, config=self.cfg, keys=True, init=init)
        self.eng = self.run.eng
        self.all = effects(self.eng)
        self.ev = [e for e in self.all if any("enumerated_values" in gchain(t) for t in e.targets) or e.kind == "set" and e.field == "enumerated_values"]
        self.act = [e for e in self.all if e.field in ("read_action", "modified_write_values") and e.kind == "set"]
        self.df = {x for e in self.all for o, a, v in sinks(e) if (o, a) == ("Field", "derived_from") for x in v}

    def built(self):
        """The new enumerations that get into the field -> [(effect, object)]"""
        out = []
        for e in self.ev:
            for a in [e.vals] + list(e.args[1:]) if e.kind == "call" else [e.vals]:
                for x in reachable(a):
                    if x.k == "O" and is_builder(x, EV) and (e, x) not in out:
                        out.append((e, x))
        return out

    def may(self):
        return may_ok(self.eng, self.eng.frames[0].ret.v)

    def flow(self):
        fl = Flow.__new__(Flow)
        fl.run, fl.eng = self.run, self.eng
        fl.cfg, fl.errs = Icfg(self.eng), err_nodes(self.eng)
        return fl

    def silent(self, like):
        """Can the run succeed after the field was handed out at a point the effects `like` of another run depend on? -> place or None"""
        keys = {pkey(f, b) for e in like for f, b in chain_points(e.f.eng, e, {YP})}
        fl = self.flow()
        hs = [h for h in fl.handouts(lambda x: is_dev(x) and owner_of(x) == "Field" and x.b != "name") if h[0] == "next" and pkey(h[1], h[2]) in keys]
        return min((fl.must([h], ()) or "" for h in hs), default=None) or None

    def rejects(self, texts):
        """Is the run bound to fail once one of the entries `texts` is handed out?"""
        fl = self.flow()
        hs = fl.handouts(lambda x: x.k == "K" and x.a == "str" and x.b in texts or x.k == "Y" and x.b[len(YP) + 1:].split("/")[0] in texts and x.b.startswith(YP + "/"))
        return any(fl.must([h], ()) is None for h in hs)


def offset(x):
    if x.k == "N":
        return x.eng.ninfo[x][0].rsplit("::", 1)[-1] in ("bit_offset", "lsb")
    return x.k == "P" and (gchain(x)[-1:] in (("bit_offset()",), ("offset",)) or "bit_range" in gchain(x))


def is_builder(x, name):
    c = x.c[0] if isinstance(x.c, tuple) and x.c else x.c
    return x.b in ("builder", "adt") and isinstance(c, str) and c.rsplit("::", 1)[-1] == name


def reachable(atoms):
    out, todo = set(), list(atoms)
    while todo and len(out) < 600:
        x = todo.pop()
        if x not in out:
            out.add(x)
            if x.k == "R":
                todo.extend(x.cell.v)
            elif x.k == "O":
                for c in x.cells.values():
                    todo.extend(c.v)
    return out


E3 = {"E": [3, "t"]}
KEY = {"Read": "_read", "Write": "_write", "ReadWrite": None}


def body(usage, v=E3, replace=False):
    v = {"_replace_enum": v} if replace else v
    return {KEY[usage]: v} if KEY[usage] else v


def content(eng, x):
    """What an enumeration (or value) under construction holds, per attribute."""
    out = {}
    for k, c in x.cells.items():
        if isinstance(k, str):
            out.setdefault(k.lstrip("@"), set()).update(v for y in c.v for v in plains(eng, y))
    return out


def plains(eng, x):
    """As plain, all possible values."""
    if variant(eng, x) == "Some":
        return {v for c in x.cells.values() for y in c.v for v in plains(eng, y)}
    return {plain(eng, x)}


def values(x):
    return [y for y in reachable({x}) if y.k == "O" and is_builder(y, "EnumeratedValue")]


def the_actions(rep):
    for tab, field, usage in ((READ, "read_action", "Read"), (WRITE, "modified_write_values", "Write")):
        for k, act in tab.items():
            for v in ({}, E3):
                s = Scen({k: v}, access="ReadWrite", have=[])
                rep.count("scenarios")
                lab = "%s%s" % (k, "" if v else " {}")
                got = {(e.field, plain(s.eng, x)) for e in s.act for x in e.vals}
                want = {(field, act)} if act else set()
                if act == "Modify" and field[0] == "m" and got == {(field, None)}:
                    got = want  # `modify` is the default
                rep.require(got == want, "action " + k, "%s: sets %s, not %s" % (lab, sorted(map(str, got)) or "nothing", sorted(map(str, want)) or "nothing"))
                us = {u for e, x in s.built() for u in content(s.eng, x).get("usage", {None})}
                rep.require(us == ({usage} if v else set()), "usage " + k, "%s: the enumeration is for %s" % (lab, sorted(map(str, us))))
        rep.ok("actions " + usage)
    pairs = [("_read", k) for k in READ if k != "_read"] + [("_write", k) for k in WRITE if k != "_write"] + [("_RC", k) for k in WRITE] + [("_read", k) for k in WRITE]
    for a, b in pairs:
        s = Scen({a: E3, b: {} if a in ("_read", "_write") and b != "_write" else E3}, access="ReadWrite")
        rep.count("scenarios")
        got = {(e.field, plain(s.eng, x)) for e in s.act for x in e.vals}
        want = {("read_action" if k in READ else "modified_write_values", t[k]) for k in (a, b) for t in (READ, WRITE) if t.get(k)}
        got = {("modified_write_values", "Modify") if g == ("modified_write_values", None) else g for g in got}
        rep.require(got == want, "actions", "`%s` with `%s`: sets %s, not %s" % (a, b, sorted(map(str, got)), sorted(map(str, want))))
        fl = s.flow()
        tab = {a, b}
        for h in fl.handouts(lambda x: x.k == "K" and x.a == "str" and x.b in tab):
            if h[0] != "next" or h[1].body.blocks[h[2]][1][0] != "call":
                continue
            f, bb = h[1], h[2]
            d = f.calls[bb][2]
            ks = {x.b for x in leaves(payload(s.eng, f.cells[d[0]].v)) if x.k == "K" and x.a == "str"} & tab
            if len(ks) == 2:
                w = fl.early([h])
                rep.require(not w, "actions", "`%s` with `%s`: %s %s: only one of the rules is applied (the iteration ends at %s)" % (a, b, f.n, f.loc(bb), w))
    rep.ok("pairs")


def the_values(rep):
    for name, v, want in (
        ("number", {"E": [3, "t"]}, {"name": {"E"}, "value": {3}, "description": {"t"}, "is_default": {None}}),
        ("other number", {"_name": "NM", "EF": [0, "u v"]}, {"name": {"EF"}, "value": {0}, "description": {"u v"}, "is_default": {None}}),
        ("default", {"E": [-1, "t"]}, {"name": {"E"}, "value": {None}, "description": {"t"}, "is_default": {True}}),
    ):
        s = Scen(v, raccess="ReadWrite", have=[], hits=False)
        rep.count("scenarios")
        bs = {x for e, x in s.built()}
        vs = [y for x in bs for y in values(x)]
        rep.require(vs, "value " + name, "%s: no enumerated value gets into the field" % name)
        for y in vs:
            c = content(s.eng, y)
            for k, w in want.items():
                got = {g for g in c.get(k, set()) if k != "name" or g is ... or g[:1] != "_"}
                rep.require(got == w or w == {None} and not got or k == "value" and w == {None} and not got, "value " + name, "`%s`: the %s written is %s, not %s" % (list(v.items())[-1], k, sorted(map(str, got)), sorted(map(str, w))))
        for x in bs:
            nm = content(s.eng, x).get("name", set())
            if "_name" in v:
                rep.require(nm == {"NM"}, "name", "`_name`: the enumeration is called %s" % sorted(map(str, nm)))
        rep.ok("value " + name)
    s = Scen({"A": [3, "x"], "B": [5, "y"], "_name": "NM"}, raccess="ReadWrite", have=[], hits=False)
    got = {k: {w for e, x in s.built() for y in values(x) for w in content(s.eng, y).get(k, ()) if w != "_name"} for k in ("name", "value", "description")}
    rep.require(got == {"name": {"A", "B"}, "value": {3, 5}, "description": {"x", "y"}}, "values", "two values: written are %s" % got)
    base = s.ev
    s = Scen({"A": [3, "x"], "B": [3, "y"]}, raccess="ReadWrite", have=[], hits=True)
    if "hit" in s.asked:
        rep.require(s.rejects({"A", "B"}), "duplicate", "two values of the same number: the run can succeed")
    else:
        rep.violation("duplicate", "nothing looks whether the number of a value is already taken")
    # default names
    for usage, sfx in (("ReadWrite", ""), ("Read", "R"), ("Write", "W")):
        s = Scen(body(usage), raccess="ReadWrite", have=[])
        for e, x in s.built():
            ps = parts(y for k in ("@name", "name") if k in x.cells for y in x.cells[k].v)
            at = {gchain(p) for p in ps if p.k == "P"}
            ks = {k.b for k in ps if k.k == "K" and k.a == "str"} - {"", "%s"}
            rep.require(any(g[-1:] == ("name",) and "fields()" in g for g in at), "name", "%s enumeration: the default name is not made from the name of the field (%s)" % (usage, sorted(at)))
            rep.require(ks == ({sfx} if sfx else set()), "name", "%s enumeration: the default name ends in %s, not `%s`" % (usage, sorted(ks), sfx))
    for bad in ({"1E": [3, "t"]}, {"E": [3]}, {"E": []}, {"E": [[1], "t"]}, {"E": 3}, {"E": [3, 4]}):
        s = Scen(bad, raccess="ReadWrite", have=[])
        rep.count("scenarios")
        rep.require(not s.ev and not s.silent(base) or s.rejects(set(bad)), "bad value", "`%s`: the run can succeed" % bad)
    s = Scen({"_name": "NM"}, raccess="ReadWrite", have=[], hits=False)
    rep.require(not any(values(x) for e, x in s.built()), "values", "`_name` is taken for a value")
    s = Scen(E3, raccess="ReadWrite", have=[], wide=True)
    if "wide" in s.asked:
        rep.require(not s.ev, "widths", "fields of different widths get the same values: %s" % [e.f.loc(e.bb) for e in s.ev[:2]])
    return base


def usage_of(access, usage):
    """(usage checked, usage recorded) or None when it has to be refused."""
    a = "RW" if access in RW else "R" if access == "ReadOnly" else "W"
    if a == "RW":
        u = usage
    elif usage == "ReadWrite":
        u = "Read" if a == "R" else "Write"
    elif usage[0] != a:
        return None
    else:
        u = usage
    return u, None if u == {"RW": "ReadWrite", "R": "Read", "W": "Write"}[a] else u


ACCESS = (None, "ReadOnly", "ReadWrite", "ReadWriteOnce", "WriteOnly", "WriteOnce")


def the_usages(rep, base):
    for facc in ACCESS:
        for racc in (ACCESS if facc is None else (None, "WriteOnly", "ReadOnly")):
            for usage in KEY:
                access = facc or racc
                want = usage_of(access, usage)
                s = Scen(body(usage), access=facc, raccess=racc, have=[])
                rep.count("scenarios")
                lab = "%s enumeration for a field of access %s in a register of access %s" % (usage, facc, racc)
                if want is None:
                    rep.require(not s.ev, "usage", "%s is not refused: %s" % (lab, [e.f.loc(e.bb) for e in s.ev[:2]]))
                    w = s.silent(base[usage])
                    rep.require(not w, "usage", "%s: the run can succeed (%s)" % (lab, w))
                else:
                    us = {u for e, x in s.built() for u in content(s.eng, x).get("usage", {None})}
                    rep.require(us == {want[1]}, "usage", "%s: the usage recorded is %s, not %s" % (lab, sorted(map(str, us)), want[1]))
    rep.ok("usages")


def kinds_of(s):
    """How the existing enumerations are treated: additions, replaced indices, dropped, usages set."""
    out = set()
    for e in s.ev:
        gs = [gchain(t) for t in e.targets]
        new = any(x.k == "O" and is_builder(x, EV) for a in (list(e.args[1:]) if e.kind == "call" else [e.vals]) for x in reachable(a))
        old = any(x.k == "P" and is_dev(x) and "enumerated_values" in gchain(x) for a in (list(e.args[1:]) if e.kind == "call" else [e.vals]) for x in reachable(a))
        if e.kind == "call":
            out.add(("add", None) if e.field in GROW and new else ("drop", e.field))
        elif e.field == "usage":
            for g in gs:
                out |= {("use", g[-1], plain(s.eng, x)) for x in e.vals}
        elif e.field == "enumerated_values":
            out.add(("all", old) if new else ("drop", "set"))
        elif all(g[-1:] == ("enumerated_values",) for g in gs):
            out.add(("at", "elem"))
        else:
            for g in gs:
                out.add(("at", g[-1]))
    return out


def the_existing(rep, base):
    HAVE = ([], [None], ["Read"], ["Write"], ["ReadWrite"], ["Read", "Write"], ["Write", "Read"])
    for access in ("ReadWrite", None, "ReadWriteOnce", "ReadOnly", "WriteOnly", "WriteOnce"):
        for usage in KEY:
            want = usage_of(access, usage)
            if want is None:
                continue
            u = want[0]
            for have in HAVE:
                for rpl in (False, True):
                    s = Scen(body(usage, replace=rpl), access=access, have=have)
                    rep.count("scenarios")
                    lab = "%s enumeration%s for a %s field with %s" % (usage, " (replace)" if rpl else "", access, "enumerations for %s" % have if have else "no enumeration")
                    if have and "len" not in s.asked and "usage" not in s.asked:
                        continue
                    ks = kinds_of(s)
                    bad = None
                    adds = {k for k in ks if k[0] == "add" or k == ("all", True)}
                    if not have:
                        if not (adds or ("all", False) in ks):
                            bad = "it is not written"
                    elif u == "ReadWrite":
                        verdict = "all" if rpl else "fail"
                    elif len(have) == 2:
                        verdict = "at" if rpl else "fail"
                    elif have[0] in (u, "ReadWrite"):
                        verdict = "at" if rpl else "fail"
                    elif have[0] is None:
                        verdict = "split" if access in RW else "at" if rpl else "fail"
                    else:
                        verdict = "add"
                    if have:
                        drop = {k for k in ks if k[0] == "drop"} or ("all", False) in ks
                        if verdict == "fail":
                            w = s.silent(base[usage])
                            bad = "what is there is changed" if s.ev else "the run can succeed (%s)" % w if w else None
                        elif verdict == "all":
                            ok = ("all", False) in ks or any(k[0] == "drop" for k in ks) and adds or len(have) == 1 and any(k[0] == "at" for k in ks)
                            bad = None if ok else "what is there is not replaced"
                        elif verdict == "at":
                            i = have.index(u) if len(have) == 2 else 0
                            at = {k[1] for k in ks if k[0] == "at"}
                            ok = (at <= {"[%d]" % i, "elem"} or "mixed" in s.asked) and (at or len(have) == 1 and drop or adds and drop)
                            if len(have) == 2 and drop and not adds:
                                ok = False
                            bad = None if ok else "what is replaced is %s" % sorted(map(str, ks))
                        else:
                            other = "Write" if u == "Read" else "Read"
                            if not adds or drop or any(k[0] == "at" for k in ks):
                                bad = "the enumeration is not added to the one that is there (%s)" % sorted(map(str, ks))
                            uses = {k[2] for k in ks if k[0] == "use"}
                            if verdict == "split" and uses != {other}:
                                bad = bad or "the one that is there gets the usage %s, not %s" % (sorted(map(str, uses)), other)
                            if verdict == "add" and uses:
                                bad = bad or "the usage of the one that is there is changed"
                    rep.require(not bad, "existing", "%s: %s" % (lab, bad))
    rep.ok("existing")


def the_derived(rep, base):
    nm = {"_name": "NM", **E3}
    for auto in ("None", "Enum", "Field"):
        for usage in KEY:
            for first in (True, False):
                s = Scen(body(usage, nm), raccess="ReadWrite", have=[], auto=auto, first=first)
                rep.count("scenarios")
                if auto != "None" and "first" not in s.asked:
                    continue
                lab = "%s enumeration, %s field, derive %s" % (usage, "first" if first else "further", auto)
                cs = [(content(s.eng, x), x) for e, x in s.built()]
                full = first or auto == "None"
                if full:
                    rep.require(cs and all(values(x) and not c.get("derived_from", set()) - {None} for c, x in cs) and not s.df, "auto", "%s: the values are not written to it" % lab)
                    if first:
                        rep.require(all(c.get("name") == {"NM"} for c, x in cs), "auto", "%s: the enumeration is not named" % lab)
                elif auto == "Enum":
                    rep.require(cs and all(c.get("derived_from") == {"NM"} and not values(x) for c, x in cs) and not s.df, "auto", "%s: it gets %s" % (lab, [{k: v for k, v in c.items() if k != "values"} for c, x in cs]))
                else:
                    named_ = {gchain(x)[-1:] for x in parts(s.df) if x.k == "P"}
                    rep.require(not cs and ("name",) in named_, "auto", "%s: it is not derived from the first field" % lab)
    # _derivedFrom
    X = {"_derivedFrom": "X"}
    ok = Scen(X, raccess="ReadWrite", have=None, other={}, names={"ev": True, "field": False})
    rep.count("scenarios")
    cs = [(content(ok.eng, x), x) for e, x in ok.built()]
    rep.require(cs and all(c.get("derived_from") == {"X"} and not values(x) for c, x in cs), "_derivedFrom", "`_derivedFrom: X`: the field gets %s" % [c for c, x in cs])
    for lab, kw in (("nothing is called X", dict(names={"ev": False, "field": False})), ("the field itself is X", dict(names={"ev": True, "field": True})), ("X is derived itself", dict(names={"ev": True, "field": False}, other={"derived": True})),
                    ("X has another usage", dict(names={"ev": True, "field": False}, other={"usage": "Write"}))):
        s = Scen(X, raccess="ReadWrite", **{"other": {}, **kw})
        rep.count("scenarios")
        if "ev" not in s.asked or lab.startswith("the field") and "field" not in s.asked:
            continue
        rep.require(not s.ev, "_derivedFrom", "`_derivedFrom: X` is not refused though %s: %s" % (lab, [e.f.loc(e.bb) for e in s.ev[:2]]))
        w = s.silent(ok.ev)
        rep.require(not w, "_derivedFrom", "`_derivedFrom: X`: the run can succeed though %s (%s)" % (lab, w))
    s = Scen(X, raccess="ReadWrite", other={}, names={"ev": True, "field": False}, twice=True)
    for f, b, n, cal, a, d in s.flow().calls("dedup", "dedup_by", "dedup_by_key", "unique", "unique_by", "skip", "step_by"):
        at = {gchain(x) for q in a[:1] for x in reachable(q) if x.k == "P"}
        if any("fields()" in g for g in at) and "_derivedFrom" in {k for k in s.doc["P"]["R"]["F"]} and not s.flow().keeps(f, b, n):
            rep.violation("_derivedFrom", "`_derivedFrom: X`: a second enumeration called X can be overlooked: %s %s (%s)" % (f.n, f.loc(b), n))
    if "twice" in s.asked:
        rep.require(not s.ev, "_derivedFrom", "`_derivedFrom: X` is not refused though two enumerations are called X: %s" % [e.f.loc(e.bb) for e in s.ev[:2]])
    for facc in ACCESS:
        for racc in (ACCESS if facc is None else (None, "WriteOnly", "ReadOnly")):
            for usage in KEY:
                for orig in KEY:
                    want = usage_of(facc or racc, usage)
                    fits = want is not None and want[0] == orig
                    s = Scen({KEY[usage]: X} if KEY[usage] else X, access=facc, raccess=racc, other={"usage": orig}, names={"ev": True, "field": False})
                    rep.count("scenarios")
                    lab = "`_derivedFrom` for %s, of an enumeration for %s, field of access %s, register %s" % (usage, orig, facc, racc)
                    if not fits:
                        rep.require(not s.ev, "_derivedFrom", "%s: is not refused: %s" % (lab, [e.f.loc(e.bb) for e in s.ev[:2]]))
                    else:
                        rep.require(s.ev and s.may(), "_derivedFrom", "%s: is refused" % lab)
    rep.ok("derived")


def check(rep):
    base = {u: Scen(body(u), raccess="ReadWrite", have=[]).ev for u in KEY}
    for u, b in base.items():
        rep.require(b, "written", "the values of a %s enumeration are not written" % u)
    def section(i):
        r = Report(rep.prop)
        (the_actions, the_values, lambda q: the_usages(q, base), lambda q: the_existing(q, base), lambda q: the_derived(q, base))[i](r)
        return r
    for r in parallel(section, 5, 5):
        rep.merge(r)
    return ("Concrete and abstract field rules interpreted from patch::process_reader in every combination of read/write key, access of field and register, enumerations already present (length and usages answered accordingly), `_replace_enum` and derive mode; "
            "effects on the enumerations, readAction and modifiedWriteValues compared with the decision table; refusals decided by the must-fail analysis from the hand-out of the field (or of the entry).")


ASSUME = ["a field has at most two enumerations, for reading and writing when two", "library defaults: Access::ReadWrite, Usage::ReadWrite"]
