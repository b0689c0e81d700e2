"""Copies, derivations and rebased peripherals: the right source, everything of it, and no reference left behind."""
from flow import *
import c31
import c09

CFG = {"update_fields": True, "enum_derive": (c31.DERIVE, "None")}
DST, SRC = "DST", "SRC"
GET = {"get_peripheral": "peripherals", "get_mut_peripheral": "peripherals", "get_register": "registers()", "get_mut_register": "registers()"}


def whole(x):
    """A device element as a whole."""
    y = x
    while y.k == "P" and y.b[:1] == "@":
        y = y.a
    return x.k == "P" and y.k == "P" and is_dev(x) and y.b in ("elem", "registers()", "Register/0", ("Register", 0)) and owner_of(y) in ("Peripheral", "Register")


def assigned(e):
    """An exchange of whole elements as assignments."""
    if e.kind == "call" and e.field in ("replace", "swap") and e.fnname.startswith(("std::mem", "core::mem", "std::ptr", "core::ptr")):
        for a, b in ((0, 1), (1, 0)) if e.field == "swap" else ((0, 1),):
            tg = {t for t in flat_refs(e.args[a]) if whole(t) and t.b[:2] != "@c"}
            if tg:
                g = Effect()
                g.kind, g.targets, g.adt, g.field, g.vals, g.f, g.bb, g.fnname, g.args, g.idx = "set", tg, e.adt, None, set(flat_refs(e.args[b])), e.f, e.bb, None, None, "t"
                yield g
    else:
        yield e


def text(atoms):
    return {x.b for x in leaves(atoms) if x.k == "K" and x.a == "str"} | {x.c for x in leaves(atoms) if x.k == "Y" and x.a == "str" and x.c}


class Scen:
    """A run of one rule with the comparisons of names and references answered."""

    def __init__(self, doc, have, refs=None, owner="Peripheral", derived=None, ints=None):
        """have: {name: whether an element of that name exists}; refs: answer when a reference is compared; derived: is the Option derived_from set; ints: has the source interrupts"""
        self.owner, self.have = owner, have
        h0, d0 = c31.hook_of("register"), c31.derived_ok("register" if owner == "Register" else "peripheral")

        def hook(c):
            n = c.n.rsplit("::", 1)[-1]
            if n in GET and c.n.startswith("svd_rs") and len(c.args) == 2:
                ks = text(c.args[1]) & set(have)
                if len(ks) == 1:
                    k = next(iter(ks))
                    if not have[k]:
                        return {c.none()}
                    return c.some({c.eng.proj(c.eng.proj(y, GET[n]), "@" + k) if GET[n] != "peripherals" else c.eng.proj(c.eng.proj(c.eng.proj(y, "peripherals"), "elem"), "@" + k)
                                   for y in flat_refs(c.args[0]) if y.k in "PN"})
            if n in ("eq", "ne") and len(c.args) == 2:
                for a, b in ((0, 1), (1, 0)):
                    ls = leaves(c.args[a])
                    if refs is not None and any(x.k == "P" and x.b == "derived_from" and is_dev(x) and owner_of(x) == owner for x in ls):
                        return {c.eng.TRUE if refs == (n == "eq") else c.eng.FALSE}
                    ks = text(c.args[b]) & set(have)
                    if len(ks) == 1 and any(x.k == "P" and x.b == "name" and is_dev(x) and owner_of(x) == owner for x in ls):
                        k = next(iter(ks))
                        self.looked.setdefault(k, set()).update(x.a for x in ls if x.k == "P" and x.b == "name")
                        return {c.eng.TRUE if have[k] == (n == "eq") else c.eng.FALSE}
            if n in ("contains", "contains_key") and len(c.args) == 2 and refs is not None and any(x.k == "P" and x.b == "derived_from" and owner_of(x) == owner for x in leaves(c.args[1])):
                return {c.eng.TRUE if refs else c.eng.FALSE}
            if c.n == MATCH:
                ks = match_spec(c) & set(have)
                own = {owner_of(x) for x in named(c.args[1])}
                if ks:
                    if own != {owner}:
                        return {c.eng.FALSE}
                    self.looked.setdefault(next(iter(ks)), set()).update(x.a for x in leaves(c.args[1]) if x.k == "P" and x.b == "name")
                    return {c.eng.TRUE if all(have[k] for k in ks) else c.eng.FALSE}
            if n == "is_empty" and ints is not None and c.args:
                xs = [x for x in flat_refs(c.args[0]) if x.k == "P" and x.b == "interrupt" and is_dev(x)]
                if xs and all(self.who(x) == {SRC} for x in xs):
                    return {c.eng.FALSE if ints else c.eng.TRUE}
            return h0(c)

        def disc(x, adt):
            if adt == OPTION and x.k == "P" and is_dev(x) and x.b == "derived_from" and owner_of(x) == owner:
                return None if derived is None else {"Some"} if derived else {"None"}
            return d0(x, adt)

        def mark(c, r):
            k = "@%s.%d" % (c.f.id, c.bb)
            return {c.eng.proj(x, k) if whole(x) else x for x in r}

        def post(c, r):
            n = c.n.rsplit("::", 1)[-1]
            if n == "next" and (c.f.m, c.bb) in self.loops:
                return {x for x in r if not (x.k == "U" and x.a == OPTION)}
            if n in ("clone", "cloned", "to_owned", "replace", "take") and any(whole(x) for x in r):
                return {c.eng.proj(x, "@c%s.%d" % (c.f.id, c.bb)) for x in r if whole(x)}
            if n in ("clone", "cloned") and any(whole(x) for x in payload(c.eng, r)):
                return set(c.some({c.eng.proj(x, "@c%s.%d" % (c.f.id, c.bb)) for x in payload(c.eng, r) if whole(x)})) | {x for x in r if x.k == "U"}
            if n in ("find", "next", "find_map", "position") and any(whole(x) for x in payload(c.eng, r)):
                # the elements looked for are there
                rets = [k.ret.v for (kk, m), k in c.f.kids.items() if kk[0] == c.bb and kk[1]]
                if rets and all(x is c.eng.TRUE for v in rets for x in v) and n != "next":
                    return {x for x in r if not (x.k == "U" and x.a == OPTION)}
            return r

        def init(eng):
            eng.mark, eng.post = mark, post
        self.looked, self.loops = {}, set()
        self.run = patch_run(doc, hook=hook, disc=disc, config=CFG, keys=True, init=init)
        # loops that look for an element that is there and are left with it: they don't get to the end
        for f in self.run.eng.frames:
            for bb, (cal, args, dest) in f.calls.items():
                if cal["n"].rsplit("::", 1)[-1] == "next" and bb not in local_reach(f, [t for (b, t) in f.edges if b == bb]) and bb not in local_reach(f, [bb]):
                    k = "@%s.%d" % (f.id, bb)
                    if any(self.have[n] and any(x.b == k for x in xs) for n, xs in self.looked.items()):
                        self.loops.add((f.m, bb))
        if self.loops:
            self.looked = {}
            self.run = patch_run(doc, hook=hook, disc=disc, config=CFG, keys=True, init=init)
        self.eng = self.run.eng
        self.fl = Flow.__new__(Flow)
        self.fl.run, self.fl.eng = self.run, self.eng
        self.cfg, self.errs = Icfg(self.eng), err_nodes(self.eng)
        self.fl.cfg, self.fl.errs = self.cfg, self.errs
        self.eff = [g for e in effects(self.eng) for g in assigned(e)]

    def who(self, x):
        """Which of the named elements is it? The last lookup counts (what was put in can come out again)."""
        while x.k == "P":
            out = {k for k, s in self.looked.items() if x in s}
            if x.b[:1] == "@" and x.b[1:] in self.have:
                out.add(x.b[1:])
            if out:
                return out
            x = x.a
        return set()

    def rules(self, key):
        return self.fl.handouts(lambda x: x.k == "K" and x.a == "str" and x.b == key or x.k == "Y" and x.c == key)

    def insertions(self):
        """Effects that put an element of the kind into the device: into the place of another one or into the container."""
        for e in self.eff:
            if e.kind == "set" and e.field is None and any(whole(t) and owner_of(t) == self.owner for t in e.targets):
                yield e
            elif e.kind == "call" and e.field in ("push", "insert", "push_back", "extend", "replace") and any(owner_of(t) in ("Device", "Peripheral", "Cluster", self.owner) for t in e.targets):
                yield e

    def copies(self, e):
        from c12 import deep
        return {x for x in deep(e.vals) if whole(x) and owner_of(x) == self.owner and x.b[:2] == "@c"}

    def writes(self, x):
        """{attribute: [(effect, values)]} written to the copy x."""
        out = {}
        for e in self.eff:
            if e.kind == "set" and e.field and x in e.targets:
                out.setdefault(e.field, []).append((e, e.vals))
            elif e.kind == "set" and e.field and any(t.k == "P" and t.a is x for t in e.targets):
                for t in e.targets:
                    if t.k == "P" and t.a is x:
                        out.setdefault(e.field, []).append((e, e.vals))
            elif e.kind == "call" and e.field in ("clone_from", "clone_into", "replace", "push_str") and any(t.k == "P" and t.a is x for t in e.targets):
                for t in e.targets:
                    if t.k == "P" and t.a is x:
                        out.setdefault(t.b, []).append((e, e.args[1]))
            elif e.kind == "call" and e.field in ("clear", "take", "truncate", "drain") and any(t.k == "P" and t.a is x for t in e.targets):
                for t in e.targets:
                    if t.k == "P" and t.a is x:
                        out.setdefault(t.b, []).append((e, {"EMPTY"}))
            elif e.kind == "call" and e.field == "modify_from" and x in e.targets:
                for o, a, v in sinks(e):
                    v = {y for y in v if not (y.k == "U" and y.a == OPTION)}
                    if o == self.owner and not a.startswith("*") and v:
                        out.setdefault(a, []).append((e, v))
        return out

    def later(self, e):
        """Attributes written to the place of the insertion e afterwards."""
        out = {}
        if e.kind == "set":
            r = local_reach(e.f, [e.bb])
            for t in e.targets:
                for a, ws in self.writes(t).items():
                    for w, v in ws:
                        f, bb = w.f, w.bb
                        while f is not e.f and f.parent is not None:
                            f, bb = f.parent, [key for (key, m), k in f.parent.kids.items() if k is f][0][0]
                        if f is not e.f or v == {"EMPTY"}:
                            continue
                        if bb == e.bb and w.f is f and w.idx != "t" and (e.idx == "t" or w.idx > e.idx) or bb != e.bb and bb in r and e.bb not in local_reach(f, [bb]):
                            out.setdefault(a, []).append((w, v))
        return out

    def misses(self, e, acts):
        """Can the run succeed after the insertion e without one of the acts?"""
        root = self.eng.frames[0]
        if any((f, bb) == (e.f, e.bb) for f, bb, _ in acts):
            return False
        return any(n[0] is root and root.body.blocks[n[1]][1][0] == "ret" for n in self.cfg.reach([(e.f, e.bb, 1)], avoid=acts | self.errs))

    def reaching(self, x, attr, ws, ins):
        """Values of the attribute of copy x when it is inserted; None stands for that of the source."""
        node = lambda e: (e.f, e.bb, 0)
        goal = node(ins)

        def before(w):
            return (w.f, w.bb) != (ins.f, ins.bb) or ins.idx == "t" and w.idx != "t" or w.idx != "t" and ins.idx != "t" and w.idx < ins.idx
        av = {node(w) for w, v in ws if before(w)} | self.errs
        fid, bb = x.b[2:].split(".")
        f = next(g for g in self.eng.frames if str(g.id) == fid)
        out = []
        if goal in self.cfg.reach([(f, int(bb), 1)], avoid=av):
            out.append(None)
        for w, v in ws:
            if not before(w):
                continue
            mine = {node(u) for u, _ in ws if u is not w and before(u)} | self.errs
            if (w.f, w.bb) == (ins.f, ins.bb) or goal in self.cfg.reach([node(w)], avoid=mine):
                out.append(v)
        return out


def of(s, name, attr, v):
    """Is the value the attribute of the named element?"""
    ps = {y for y in parts(v) if y.k == "P"}
    return bool(ps) and all(gchain(y)[-1:] == (attr,) and s.who(y) == {name} for y in ps) and not text(v)


def is_name(s, name, v):
    return text(v) == {name} and not {y for y in parts(v) if y.k == "P"} or of(s, name, "name", v)


def none(v):
    return all(y == "EMPTY" or y.k == "U" and y.a == OPTION and y.b == 0 or y.k == "O" and y.b == "vec" and not any(c.v for c in y.cells.values()) for y in v)


def given(s, path):
    return lambda v: scalar_ypaths(v) == {path}


def verify(rep, s, lab, ins, want, origin):
    """The inserted copies are those of the source, with the attributes `want` ({attr: test} ; ORIG = as in the source) and nothing else changed."""
    n = 0
    for e in ins:
        for x in s.copies(e):
            if not origin(x):
                continue
            n += 1
            w = "%s %s" % (e.f.n, e.f.loc(e.bb))
            rep.require(s.who(x) == {SRC}, lab + "/source", "%s: what is put in is not a copy of the source (%s)" % (lab, w))
            ws, late = s.writes(x), s.later(e)
            for a in set(ws) | set(late) | set(want):
                rep.count("attributes")
                vals = s.reaching(x, a, ws.get(a, []), e)
                if a in late:
                    vals = [v for _, v in late[a]] + (vals if s.misses(e, {(w.f, w.bb, 0) for w, _ in late[a]}) else [])
                if a not in want:
                    bad = [v for v in vals if v is not None]
                    rep.require(not bad, lab + "/" + a, "%s: the %s of the copy is not that of the source (%s, put in by %s)" % (lab, a, (ws.get(a) or late[a])[0][0].f.loc((ws.get(a) or late[a])[0][0].bb), w))
                else:
                    for v in vals:
                        rep.require(v is not None and want[a][1](v), lab + "/" + a, "%s: the %s of the copy is not %s but %s (%s)" % (lab, a, want[a][0], "that of the source" if v is None else show({y for y in v if y != "EMPTY"})[:120], w))
    rep.require(n, lab + "/insert", "%s: no copy of the source gets into the device" % lab)


NAME = lambda s: ("the name given", lambda v: is_name(s, DST, v))
OWN = lambda s, a: ("that of the element replaced", lambda v: of(s, DST, a, v))
NONE = ("empty", none)
Y = {DST: True, SRC: True}
N = {DST: False, SRC: True}


def must(rep, s, lab, key, acts, what):
    hs = s.rules(key)
    rep.require(hs, lab + "/rule", "%s: the rule is never read" % lab)
    ws = [s.fl.must([h], acts) for h in hs] if acts else ["no such step"]
    rep.require(not all(ws), lab + "/always", "%s: the run can succeed without %s (%s)" % (lab, what, ws[0]))


def copy_peripheral(rep):
    own = lambda x: rootname(x).eng.ninfo[rootname(x)][0].endswith("parse_with_config")
    for frm, lab0 in ((SRC, "_copy peripheral"), ("f.svd:" + SRC, "_copy peripheral of another file")):
        org = own if frm == SRC else lambda x: not own(x)
        for have in (Y, N):
            s = Scen({"_copy": {DST: {"from": frm}}}, have)
            lab = lab0 + (" (there)" if have is Y else " (new)")
            rep.count("scenarios")
            want = {"name": NAME(s), "derived_from": NONE}
            if have is Y:
                want.update({"base_address": OWN(s, "base_address"), "interrupt": OWN(s, "interrupt")})
            elif frm == SRC:
                want["interrupt"] = NONE
            ins = list(s.insertions())
            verify(rep, s, lab, ins, want, org)
            for e in ins:
                rep.require(have is N or e.kind == "set" and all(s.who(t) == {DST} for t in e.targets), lab + "/place", "%s: the copy does not take the place of the element there is (%s)" % (lab, e.f.loc(e.bb)))
            must(rep, s, lab, DST, {(e.f, e.bb, 0) for e in ins}, "putting in the copy")
            rep.ok(lab)


def copy_register(rep):
    import c10
    for place, mk, pre in (("", lambda h: {"P": {"_copy": {DST: h}}}, "/P/_copy/DST/"), (" in cluster", lambda h: {"P": {"_clusters": {"C": {"_copy": {DST: h}}}}}, "/P/_clusters/C/_copy/DST/")):
        for have in (Y, N):
            for keys in ([], ["displayName", "description", "addressOffset", "access", "size", "resetValue", "alternateRegister"]):
                s = Scen(mk({"_from": SRC, **{k: c10.REGISTER[k][0] for k in keys}}), have, owner="Register")
                lab = "_copy register%s (%s%s)" % (place, "there" if have is Y else "new", ", with attributes" if keys else "")
                rep.count("scenarios")
                want = {"name": NAME(s), "display_name": ("empty", lambda v: text(v) == {""} and not parts(v) - {y for y in parts(v) if y.k == "K"})}
                for k in keys:
                    want[next(iter(c10.REGISTER[k][1]))[1]] = ("the one given", given(s, pre + k))
                if have is Y:
                    want["address_offset"] = OWN(s, "address_offset")
                ins = list(s.insertions())
                verify(rep, s, lab, ins, want, lambda x: True)
                must(rep, s, lab, DST, {(e.f, e.bb, 0) for e in ins}, "putting in the copy")
                rep.ok(lab)


def rebase(rep, ints):
    doc = {"_rebase": {DST: SRC}}
    s = Scen(doc, Y, refs=True, derived=True, ints=ints)
    rep.count("scenarios")
    lab = "_rebase%s" % ("" if ints else " (no interrupts)")
    ins = [e for e in s.insertions() if s.copies(e)]
    verify(rep, s, lab, ins, {"name": NAME(s), "base_address": OWN(s, "base_address"), "interrupt": OWN(s, "interrupt")}, lambda x: True)
    for e in ins:
        rep.require(e.kind == "set" and all(s.who(t) == {DST} for t in e.targets), lab + "/place", "%s: the contents do not get into the peripheral given by the key (%s)" % (lab, e.f.loc(e.bb)))
    must(rep, s, lab, DST, {(e.f, e.bb, 0) for e in ins}, "moving the contents")
    # what is left in the place of the source
    want = {"name": ("its own", lambda v: is_name(s, SRC, v)), "base_address": ("its own", lambda v: of(s, SRC, "base_address", v)),
            "interrupt": ("its own", lambda v: of(s, SRC, "interrupt", v)), "derived_from": ("that given by the key", lambda v: is_name(s, DST, v))}
    left = [e for e in s.eff if not s.copies(e) and any(whole(t) and s.who(t) == {SRC} for t in e.targets) and (e.kind == "set" and e.field is None or e.kind == "call" and e.field == "replace")]
    for e in left:
        got = {a: {y for y in v if not (y.k == "U" and y.a == OPTION)} for o, a, v in sinks(e) if o == "Peripheral" and not a.startswith("*")}
        for a in set(want) - (set() if ints else {"interrupt"}) | {a for a, v in got.items() if v}:
            v = got.get(a)
            rep.count("attributes")
            if a not in want:
                rep.violation(lab + "/left/" + a, "%s: the peripheral left behind gets a %s (%s)" % (lab, a, e.f.loc(e.bb)))
            else:
                rep.require(v and want[a][1](v), lab + "/left/" + a, "%s: the %s of the peripheral left behind is not %s (%s)" % (lab, a, want[a][0], e.f.loc(e.bb)))
    rep.require(left, lab + "/left", "%s: the peripheral whose contents are taken does not become a derived one" % lab)
    must(rep, s, lab + "/left", DST, {(e.f, e.bb, 0) for e in left}, "deriving the peripheral whose contents are taken")
    rep.ok(lab)


def moved(rep, s, lab):
    """A peripheral taken out of the device is put back."""
    for e in s.eff:
        if e.kind == "call" and e.field in ("remove", "swap_remove") and any(gchain(t)[-1:] == ("peripherals",) for t in e.targets):
            acts = {(i.f, i.bb, 0) for i in s.eff if i.kind == "call" and i.field in ("insert", "push") and any(y.k == "P" and any(k.startswith("@%s.%d" % (e.f.id, e.bb)) for k in marks(y)) for y in flat_refs(i.vals))}
            r = s.cfg.reach([(e.f, e.bb, 1)], avoid=acts | s.errs)
            root = s.eng.frames[0]
            rep.require(acts and not any(n[0] is root and root.body.blocks[n[1]][1][0] == "ret" for n in r), lab + "/moved", "%s: a peripheral taken out is not put back (%s)" % (lab, e.f.loc(e.bb)))


def marks(x):
    while x.k == "P":
        if x.b[:1] == "@":
            yield x.b
        x = x.a


REDIRECT = [
    # (rule, document, kind, key of the rule, the new reference)
    ("_derive of peripherals", {"_derive": {DST: SRC}}, "Peripheral", DST, SRC),
    ("_derive of peripherals with attributes", {"_derive": {DST: {"_from": SRC, "description": "$str", "dim": "$int", "dimIncrement": "$int"}}}, "Peripheral", DST, SRC),
    ("_rebase", {"_rebase": {DST: SRC}}, "Peripheral", DST, DST),
    ("_modify of the name of peripherals", {"_modify": {DST: {"name": "NEW"}}}, "Peripheral", DST, "NEW"),
    ("_modify of the name of _peripherals", {"_modify": {"_peripherals": {DST: {"name": "NEW"}}}}, "Peripheral", DST, "NEW"),
    ("_derive of registers", {"P": {"_derive": {DST: SRC}}}, "Register", DST, SRC),
    ("_derive of registers with attributes", {"P": {"_derive": {DST: {"_from": SRC, "description": "$str", "dim": "$int", "dimIncrement": "$int"}}}}, "Register", DST, SRC),
    ("_derive of registers in cluster", {"P": {"_clusters": {"C": {"_derive": {DST: SRC}}}}}, "Register", DST, SRC),
]


def reference(e, owner):
    """Does the effect change the reference of an element?"""
    if e.kind == "set" and e.field == "derived_from":
        return any(whole(t) and owner_of(t) == owner for t in e.targets)
    return (e.kind == "set" and e.field is None or e.field in ("replace", "insert", "clone_from")) and any(t.k == "P" and gchain(t)[-1:] == ("derived_from",) and owner_of(t) == owner for t in e.targets)


def around(s, n):
    """Nodes that hand out the elements of the loops the node is in."""
    f, bb, _ = n
    while f is not None:
        for b in f.calls:
            if f.calls[b][0]["n"].rsplit("::", 1)[-1] in TAKE and b != bb and bb in local_reach(f, [b]) and b in local_reach(f, [bb]):
                yield (f, b, 0)
        key = [k for (k, m), v in f.parent.kids.items() if v is f] if f.parent is not None else [()]
        f, bb = f.parent, key[0][0] if key[0] else None


def noted(rep, s, lab, loops, good):
    """The names whose references are looked for are those of all the elements changed."""
    named_ = [n for n in loops if any(y.k == "P" and y.b == "name" and whole(y.a) for y in payload(s.eng, n[0].cells[n[0].calls[n[1]][2][0]].v))]
    for n in named_:
        w = s.fl.early([("next", n[0], n[1])]) or s.fl.drops(("next", n[0], n[1])) or s.fl.must([("next", n[0], n[1])], good)
        rep.require(not w, lab + "/references", "%s: references to some of the elements are not looked for (%s)" % (lab, w))
    # the collections of names
    used = {x for n in named_ for x in iterobjs(n[0].calls[n[1]][1][0])}
    for f, bb, n, cal, args, dest in s.fl.calls("contains", "contains_key", "any", "iter", "binary_search"):
        if n in ("any", "iter") or len(args) > 1 and any(y.k == "P" and y.b == "derived_from" for y in leaves(args[1])):
            used |= {y for y in flat_refs(args[0]) if y.k in "ON"}
    puts = {(f, bb, 0) for f, bb, n, cal, args, dest in s.fl.calls("push", "insert", "extend", "push_back")
            if len(args) > 1 and any(y.k == "P" and y.b == "name" and whole(y.a) for y in flat_refs(args[-1])) and used & set(flat_refs(args[0]))}
    mods = {(e.f, e.bb, 0) for e in s.eff if e.kind == "call" and e.field == "modify_from" and any(s.who(t) == {DST} for t in e.targets)}
    for h in s.fl.handouts(lambda x: whole(x) and s.who(x) == {DST}):
        if puts and mods and not s.fl.must([h], mods):
            w = s.fl.must([h], puts)
            rep.require(not w, lab + "/references", "%s: the name of an element changed is not taken down to look for references (%s)" % (lab, w))


def redirect(rep, row):
    lab, doc, owner, key, new = row
    s = Scen(doc, Y, refs=True, owner=owner, derived=True)
    rep.count("scenarios", 2)
    sets = [e for e in s.eff if reference(e, owner)]
    for e in sets:
        rep.require(new in text(e.vals) and not text(e.vals) - {new} - {"."}, lab + "/value", "%s: references are changed to %s (%s)" % (lab, sorted(text(e.vals)), e.f.loc(e.bb)))
    acts = {(e.f, e.bb, 0) for e in sets}
    good, why = set(), "references to the element are not changed"
    for h in s.fl.handouts(lambda x: (whole(x) or x.k == "P" and "derived_from" in gchain(x)[-1:]) and is_dev(x) and owner_of(x) == owner):
        w = acts and (s.fl.must([h], acts) or s.fl.early([h]) or dropped(s, h))
        if acts and not w:
            good.add(s.fl.node(h))
        elif acts and touches(s, h, sets):
            why = "references to the element can stay as they were: %s" % w
    loops = {n for g in good for n in around(s, g)}
    loops = {n for n in loops if any(n in s.cfg.reach(s.fl.starts(h), avoid=s.errs) for h in s.rules(key))} - {s.fl.node(h) for h in s.rules(key)}
    noted(rep, s, lab, loops, good)
    ws = [s.fl.must([h], good | loops) for h in s.rules(key)] if good else [why]
    rep.require(ws and not all(ws), lab + "/references", "%s: %s" % (lab, why if not good else "the references are not always looked at: %s" % ws[0] if ws else "the rule is never read"))
    no = Scen(doc, Y, refs=False, owner=owner, derived=True)
    for e in no.eff:
        if reference(e, owner) and not any(no.who(t) for t in e.targets):
            rep.violation(lab + "/others", "%s: the reference of an element derived from another one is changed (%s)" % (lab, e.f.loc(e.bb)))
    if owner == "Peripheral":
        moved(rep, s, lab)
    rep.ok(lab)


def touches(s, h, sets):
    k, f, bb = h
    return any(e.f is f or e.f.parent is f for e in sets)


def dropped(s, h):
    """Adapters that leave out elements (the comparison of the reference answers yes for all of them)."""
    return s.fl.drops(h)


def derive(rep):
    import c10
    per = ["description", "baseAddress", "displayName", "groupName", "version"]
    reg = ["description", "addressOffset", "displayName", "alternateGroup", "alternateRegister"]
    for lab0, mk, pre, owner, keys, table in (
            ("_derive peripheral", lambda h: {"_derive": {DST: h}}, "/_derive/DST/", "Peripheral", per, c10.PERIPHERAL),
            ("_derive register", lambda h: {"P": {"_derive": {DST: h}}}, "/P/_derive/DST/", "Register", reg, c10.REGISTER),
            ("_derive register in cluster", lambda h: {"P": {"_clusters": {"C": {"_derive": {DST: h}}}}}, "/P/_clusters/C/_derive/DST/", "Register", reg, c10.REGISTER)):
        for have in (Y, N):
            for h in (SRC, {"_from": SRC}, {"_from": SRC, **{k: table[k][0] for k in keys}}):
                s = Scen(mk(h), have, owner=owner, refs=False)
                ks = [k for k in keys if isinstance(h, dict) and k in h]
                lab = "%s (%s%s)" % (lab0, "there" if have is Y else "new", ", with attributes" if ks else "")
                rep.count("scenarios")
                want = {"derived_from": ("the source", lambda v: SRC in text(v) and not text(v) - {SRC})}
                for k in ks:
                    want[next(iter(table[k][1]))[1]] = ("the one given", given(s, pre + k))
                if have is N:
                    want["name"] = NAME(s)
                es = []
                for e in s.eff:
                    if have is Y and e.kind == "call" and e.field == "modify_from" and any(whole(t) and s.who(t) == {DST} for t in e.targets) or have is N and e in list(s.insertions()) and has_new(e, owner):
                        es.append(e)
                        got = {a: {y for y in v if not (y.k == "U" and y.a == OPTION)} for o, a, v in sinks(e) if o == owner and not a.startswith("*")}
                        for a in set(want) | {a for a, v in got.items() if v}:
                            rep.count("attributes")
                            if a not in want:
                                rep.require(a == "name" and is_name(s, DST, got[a]), lab + "/" + a, "%s: the element gets a %s that is not given (%s)" % (lab, a, e.f.loc(e.bb)))
                            else:
                                rep.require(got.get(a) and want[a][1](got[a]), lab + "/" + a, "%s: the %s of the element is not %s (%s)" % (lab, a, want[a][0], e.f.loc(e.bb)))
                if have is N or owner == "Peripheral":
                    must(rep, s, lab, DST, {(e.f, e.bb, 0) for e in es}, "deriving the element")
                else:
                    rep.require(es, lab + "/always", "%s: no element becomes a derived one" % lab)  # all that match: C31
                rep.ok(lab)


def has_new(e, owner):
    return any(o == owner and a == "derived_from" for o, a, v in sinks(e))


MISSING = [
    ("_copy peripheral", {"_copy": {DST: {"from": SRC}}}, "Peripheral", SRC),
    ("_copy peripheral of another file", {"_copy": {DST: {"from": "f.svd:" + SRC}}}, "Peripheral", SRC),
    ("_derive peripheral", {"_derive": {DST: SRC}}, "Peripheral", SRC),
    ("_derive peripheral with attributes", {"_derive": {DST: {"_from": SRC, "description": "$str"}}}, "Peripheral", SRC),
    ("_rebase", {"_rebase": {DST: SRC}}, "Peripheral", SRC),
    ("_rebase", {"_rebase": {DST: SRC}}, "Peripheral", DST),
    ("_copy register", {"P": {"_copy": {DST: {"_from": SRC}}}}, "Register", SRC),
    ("_copy register in cluster", {"P": {"_clusters": {"C": {"_copy": {DST: {"_from": SRC}}}}}}, "Register", SRC),
    ("_derive register", {"P": {"_derive": {DST: SRC}}}, "Register", SRC),
    ("_derive register with attributes", {"P": {"_derive": {DST: {"_from": SRC, "description": "$str"}}}}, "Register", SRC),
    ("_derive register in cluster", {"P": {"_clusters": {"C": {"_derive": {DST: SRC}}}}}, "Register", SRC),
    ("_derive register, optional", {"P": {"_derive": {"?~" + DST: SRC}}}, "Register", SRC),
    ("_derive register with dim", {"P": {"_derive": {DST: {"_from": SRC, "dim": "$int", "dimIncrement": "$int"}}}}, "Register", SRC),
    # the source is not given at all
    ("_derive peripheral without _from", {"_derive": {DST: {"description": "$str"}}}, "Peripheral", None),
    ("_copy register without _from", {"P": {"_copy": {DST: {"description": "$str"}}}}, "Register", None),
    ("_derive register without _from", {"P": {"_derive": {DST: {"description": "$str"}}}}, "Register", None),
    ("_derive field without _from", {"P": {"R": {"_derive": {DST: {"description": "$str"}}}}}, "Field", None),
]


def missing(rep, row):
    lab, doc, owner, gone = row
    for there in (True, False) if gone == SRC else (True,):
        have = {DST: there, SRC: True}
        if gone:
            have[gone] = False
        s = Scen(doc, have, owner=owner)
        rep.count("scenarios")
        pts = c09.entries(s.eng, DST) or c09.entries(s.eng, "?~" + DST)
        rep.require(pts, lab + "/rule", "%s: the rule is never read" % lab)
        for (f, bb), force in pts.items():
            top = s.eng.continue_from(f, bb, force)
            rep.require(not may_ok(s.eng, top.ret.v), lab + "/missing", "%s: the run can succeed though %s (rule read in %s at %s)" % (lab, "%s does not exist" % ("the source" if gone == SRC else "the target") if gone else "no source is given", f.n, f.loc(bb)))
    rep.ok(lab + "/missing")


def check(rep):
    jobs = [lambda r: copy_peripheral(r), lambda r: copy_register(r), lambda r: rebase(r, True), lambda r: rebase(r, False), lambda r: derive(r)]
    jobs += [lambda r, x=x: redirect(r, x) for x in REDIRECT] + [lambda r, x=x: missing(r, x) for x in MISSING]

    def job(i):
        r = Report(rep.prop)
        jobs[i](r)
        return r
    for r in parallel(job, len(jobs), 7):
        rep.merge(r)
    return ("The rules `_copy`, `_derive`, `_rebase` and `_modify: name` interpreted from patch::process_reader on an abstract device whose elements are told apart by where they were looked up; for every attribute of a copy the "
            "values that reach its insertion (reaching definitions over the interprocedural graph); references followed with the comparison of `derivedFrom` answered; success unreachable when the source is missing.")


ASSUME = ["an element is looked up by comparing its name, by a matcher or by the getters of svd-rs", "modify_from of svd-rs as modelled"]
