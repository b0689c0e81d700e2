"""`_merge` and `_split` put fields in the place of others that cover the same bits."""
from flow import *
from c28 import is_builder, reachable, GROW
from c34 import choosers, KEEP_TRUE, REM_TRUE, CUT, TAKEN, within
from c12 import comparisons, ORD, EQ

S = "$str"
CONT = ("peripherals", "registers()", "fields")
MERGES = [
    ("_merge", lambda: {"_merge": S}, "/_merge", False),
    ("_merge list", lambda: {"_merge": [S, S]}, "/_merge", False),
    ("_merge named", lambda: {"_merge": {"N": S}}, "/_merge/N", True),
    ("_merge named list", lambda: {"_merge": {"N": [S, S]}}, "/_merge/N", True),
]
SPLITS = [
    ("_split", lambda: {"_split": S}, "/_split", {}),
    ("_split list", lambda: {"_split": [S, S]}, "/_split", {}),
    ("_split hash", lambda: {"_split": {"X": {}}}, "/_split", {}),
    ("_split name", lambda: {"_split": {"X": {"name": S}}}, "/_split", {"name": "/_split/X/name"}),
    ("_split description", lambda: {"_split": {"X": {"description": S}}}, "/_split", {"description": "/_split/X/description"}),
]
LEVELS = [("", lambda r: {"P": {"R": r}}, "/P/R", ("peripherals", "registers()", "fields")),
          (" in cluster", lambda r: {"P": {"_clusters": {"C": {"R": r}}}}, "/P/_clusters/C/R", ("peripherals", "clusters()", "registers()", "fields"))]
PICK = {"next", "next_back", "pop", "pop_front", "pop_back", "first", "last", "first_mut", "last_mut", "get", "get_mut", "nth"}
OPS = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}
MIN = {"min", "min_by", "min_by_key", "min_set", "minmax"}
SAMES = {"eq", "ne", "contains", "contains_key", "eq_ignore_ascii_case", "binary_search", "position"}


def disc(x, adt):
    if adt == OPTION and x.k == "P" and is_dev(x):
        if x.b == "derived_from":
            return {"None"}
        if x.b in ("fields", "registers", "interrupt"):
            return {"Some"}
    return None


class Scen:
    """match: the specification covers the fields; same: the comparisons of their names with those found say so; mode: "one" or "several" fields are found by calls that hand them out one at a time."""

    def __init__(self, doc, yp, cont, match=True, same=True, mode=None):
        self.cont, self.doc, self.yp = cont, doc, yp
        self.picks = set()
        if mode:
            b = Scen(doc, yp, cont)
            sites = {(f.n, bb) for f, bb in b.picks}
            later = {(f.n, bb) for f, bb in b.picks if b.after(f, bb)}

        def init(eng):
            def post(c, r):
                n = c.n.rsplit("::", 1)[-1]
                if n in ("any", "all") and "inst" not in c.callee and c.args and any(of_field(x, "name") for x in parts(c.args[0])):
                    # the fields found are some
                    rs = {x for (key, m), k in c.f.kids.items() if key[0] == c.bb and key[1] for x in k.ret.v}
                    if rs == {eng.TRUE if n == "any" else eng.FALSE}:
                        return rs
                if n in PICK and (mode or any(of_field(x, None) for x in payload(eng, r))) and c.f.parent is not None and not c.f.n.startswith("<patch::iterators"):
                    k = c.f.n, c.bb
                    if not mode or k in sites:
                        self.picks.add((c.f, c.bb))
                    if mode and k in sites and (mode == "several" or k not in later):
                        return {x for x in r if x is not eng.NONE}
                return r
            eng.post = post

            def hb(f, bb, op, s1, s2):
                for a, b, o in ((s1, s2, op), (s2, s1, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
                    if a and all(map(counts, a)) and len(b) == 1 and (op in EQ or op in ORD):
                        k = next(iter(b))
                        if k.k == "K" and isinstance(k.b, int):
                            num = 2 if mode == "several" else 1
                            return {eng.TRUE if {"Eq": num == k.b, "Ne": num != k.b, "Lt": num < k.b, "Le": num <= k.b, "Gt": num > k.b, "Ge": num >= k.b}[OPS.get(o, o)] else eng.FALSE}
                return None
            if mode:
                eng.hook_bin = hb
        self.seen = seen = []

        def hook(c):
            last = c.n.rsplit("::", 1)[-1]
            if c.n == MATCH:
                if "X" in match_spec(c) or any(x.b.startswith(yp) for a in c.args[:1] for y in leaves(a) for x in [rootname(y)] if x.k == "Y"):
                    seen.append((c.f, c.bb))
                    return {c.eng.TRUE if match else c.eng.FALSE}
                own = {owner_of(x) for x in named(c.args[1])}
                sp = match_spec(c)
                return {c.eng.FALSE if own == {"Cluster"} and "R" in sp or own == {"Register"} and "C" in sp else c.eng.TRUE}
            if last in ("eq", "ne", "contains", "contains_key") and "inst" not in c.callee and len(c.args) > 1 and any(of_field(x, "name") for a in c.args for x in parts(a)):
                return {c.eng.TRUE if same == (last != "ne") else c.eng.FALSE}
            if last == "is_empty" and any(of_field(x, None) for a in c.args for x in parts(a)):
                return {c.eng.FALSE}
            return None

        self.fl = Flow.__new__(Flow)
        self.run = self.fl.run = patch_run(doc, hook=hook, disc=disc, keys=True, init=init)
        self.eng = self.fl.eng = self.run.eng
        self.fl.cfg, self.fl.errs = Icfg(self.eng), err_nodes(self.eng)
        self.picks = {(f, bb) for f, bb in self.picks if bb not in local_reach(f, [bb])}

    def after(self, f, bb):
        """Is there an earlier call handing out a field?"""
        return any(g is f and c != bb and bb in local_reach(f, [c]) and c not in local_reach(f, [bb]) for g, c in self.picks)

    def inserts(self):
        """Additions to the fields of the register, with the fields they add."""
        out = []
        for e in effects(self.eng):
            if {gchain(t) for t in e.targets} <= {self.cont} and e.kind == "call" and e.field in GROW + ("append", "splice", "extend_from_within"):
                out.append((e, [x for a in e.args[1:] for x in reachable(a) if x.k == "O" and is_builder(x, "FieldInfo")]))
        return out


def up(f):
    while f is not None:
        yield f
        f = f.parent


def counts(x):
    """The number of fields found"""
    return x.k == "N" and x.eng.ninfo[x][0].rsplit("::", 1)[-1] in ("len", "count", "un:PtrMetadata") and not any(y.k == "P" and gchain(y)[-1:] == ("fields",) for a in x.eng.ninfo[x][1] for y in flat_refs(a))


def of_field(x, attr):
    if x.k != "P":
        return False
    g = gchain(x)
    return any(k in ("fields()", "fields") for k in g) and (attr is None or g[-1] == attr)


def tree(atoms):
    """All the operations a value is made by."""
    out, seen, todo = set(), set(), list(atoms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "N":
            out.add(x)
            for a in x.eng.ninfo[x][1]:
                todo.extend(a)
        elif x.k == "P":
            todo.extend({base(x)} - {None})
        elif x.k == "O":
            for c in x.cells.values():
                todo.extend(c.v)
        elif x.k == "R":
            todo.extend(x.cell.v)
    return out


def base(x):
    """What is computed that a value is taken from; None for a part of the device"""
    while x.k == "P":
        x = x.a
    return x if x.k == "N" and not x.eng.ninfo[x][0].endswith(ROOTS) and opname(x) != "from_offset_width" else None


def remade(x):
    """Part of the bit range of a field made by an earlier rule"""
    while x.k == "P":
        x = x.a
    return x.k == "N" and opname(x) == "from_offset_width"


def parts(atoms):
    """The parts of the device and the constants a value is made of."""
    out, seen, todo = set(), set(), list(atoms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "P":
            todo.extend({base(x)} - {None})
            out |= set() if base(x) or remade(x) else {x}
        elif x.k == "N":
            for a in x.eng.ninfo[x][1]:
                todo.extend(a)
        elif x.k == "O":
            for c in x.cells.values():
                todo.extend(c.v)
        elif x.k == "R":
            todo.extend(x.cell.v)
        else:
            out.add(x)
    return out


def counter(vs):
    """A number counted up from 0"""
    ns = [x for x in vs if x.k == "N"]
    if len(ns) != 1 or not any(x.k == "K" and x.b == 0 for x in vs) or not all(x.k == "K" for x in vs if x not in ns):
        return False
    n, a = ns[0].eng.ninfo[ns[0]][:2]
    return n.startswith("op:Add") and set(a[0]) <= set(vs) and all(x.k == "K" and x.b == 1 for x in a[1]) and ns[0] in a[0]


def bounded(n):
    """Is the counter compared with the width?"""
    return any(q.op in ORD and any(n in s for s in q.sides) and any(last_attrs(s) == {"width"} for s in q.sides) for q in comparisons(n.eng))


def counting(vs):
    """The counters a value is made with, replaced by one atom"""
    if counter(vs):
        n = [x for x in vs if x.k == "N"][0]
        if bounded(n):
            return {n}
    return vs


def summands(x, d=0):
    """The possible sums a number is."""
    if x.k == "R":
        return {t for y in x.cell.v for t in summands(y, d + 1)}
    if x.k == "K" and x.b == 0:
        return {()}
    if d < 8:
        if is_bit(x):
            return {(x,)}
        b = base(x) if x.k == "P" else x
        n, a = b.eng.ninfo[b][:2] if b is not None and b.k == "N" else ("", ())
        if n.startswith("op:Add") or n.endswith(ADDS):
            return {p + q for y in counting(a[0]) for z in counting(a[1]) for p in summands(y, d + 1) for q in summands(z, d + 1)}
        if n.startswith(PASS) and a:
            return {t for y in a[0] for t in summands(y, d + 1)}
    return {(x,)}


def opname(x):
    return x.eng.ninfo[x][0].rsplit("::", 1)[-1]


def cells(x):
    out = {}
    for k, c in x.cells.items():
        if isinstance(k, str):
            out.setdefault(k.lstrip("@"), set()).update(c.v)
    return out


def ends(vals):
    """(offset, width) a bit range is built with."""
    for x in flat_refs(vals):
        if x.k == "N" and opname(x) == "from_offset_width":
            a = x.eng.ninfo[x][1]
            yield set(a[0]), set(a[1])
        elif x.k == "O" and x.b in ("adt", "builder") and {"offset", "width"} <= {k for k in cells(x)}:
            c = cells(x)
            yield c["offset"], c["width"]
        elif x.k == "O" and x.b == "adt" and x.c[0].endswith("BitRange") and {0, 1} <= set(x.cells):
            yield set(x.cells[0].v), set(x.cells[1].v)
        else:
            yield None


def last_attrs(vals):
    return {gchain(x)[-1] for x in parts(vals) if x.k == "P" and gchain(x)}


def empty(v, eng):
    return all(x is eng.NONE for x in flat_refs(v))


def chosen(s):
    """Calls that choose the fields that go or stay"""
    put = {e.f for e in effects(s.eng) if e.kind == "set" or e.field in TAKEN}
    rem = {e.f for e in effects(s.eng) if e.field in CUT}
    return [(f, bb, n, rs) for f, bb, n, rs in choosers(s.eng, s.cont) if "::option::" not in f.calls[bb][0]["n"] and (n in ("retain", "retain_mut", "extract_if", "drain_filter") or n in ("filter", "partition") and f in put or n in ("position", "rposition") and f in rem)]


def around(s, e):
    """The frames between the rule and the effect, and those called by them"""
    top = set.intersection(*[set(up(f)) for f, bb in s.seen], set(up(e.f)))
    top = max(top, key=lambda f: len(list(up(f))))
    return {f for f in s.eng.frames if top in up(f)}


def removal(rep, lab, s, goes):
    """The predicates choosing among the fields give up all (none) of them."""
    ch = chosen(s)
    for f, bb, n, rs in ch:
        want = s.eng.TRUE if (n in REM_TRUE) == goes else s.eng.FALSE
        rep.require(rs == {want}, lab + "/removed", "%s: %s %s: a field that is %s" % (lab, f.n, f.loc(bb), "replaced may stay" if goes else "not replaced may be removed"))
    return ch


def outside(rep, lab, s):
    """Nothing but the fields of the register is changed."""
    for e in effects(s.eng):
        if e.kind == "set" and {gchain(t) for t in e.targets} <= {s.cont[:-1], s.cont} or all(within(t, s.cont) and gchain(t) == s.cont for t in e.targets) and (e.kind != "set"):
            if e.kind != "set" and e.field not in set(GROW) | KEEP_TRUE | REM_TRUE | CUT | TAKEN | {"sort", "sort_by", "sort_by_key", "reserve", "append", "splice"}:
                rep.violation(lab + "/else", "%s: %s %s: also changes %s.%s" % (lab, e.f.n, e.f.loc(e.bb), e.adt, e.field))
            continue
        rep.violation(lab + "/else", "%s: %s %s: also changes %s.%s" % (lab, e.f.n, e.f.loc(e.bb), e.adt, e.field))


def found(s):
    """(scenario, nodes where a field that the specification covers was handed out)"""
    t = Scen(s.doc, s.yp, s.cont, mode="one")
    picks = [(f, bb, 1) for f, bb in t.picks if not t.after(f, bb)]
    if picks:
        return t, picks
    return s, [(f, bb, 1) for f, bb in s.seen]


def news(s):
    """Loops over new fields that add each of them"""
    ns = [(e.f, e.bb) for e, _ in s.inserts()]
    return [h for h in s.fl.handouts(lambda x: x.k == "O" and any(is_builder(y, "FieldInfo") for y in reachable({x}))) if h[0] == "next" and any(f is h[1] and b in local_reach(f, [h[2]]) and h[2] in local_reach(f, [b]) for f, b in ns)]


def cuts(s):
    return {(f, bb, 0) for f, bb, n, rs in chosen(s)} | {(e.f, e.bb, 0) for e in effects(s.eng) if e.field in CUT | TAKEN or e.kind == "set"}


def passed(rep, lab, s, ins, yp):
    """Every specification that covers a field leads to the replacement, once."""
    nodes = {(e.f, e.bb, 0) for e, _ in ins}
    t, sts = found(s)
    for st in sts:
        f, bb = st[:2]
        for what, acts in (("adds a field", {(e.f, e.bb, 0) for e, _ in t.inserts()} | {t.fl.node(h) for h in news(t)}), ("removes the fields", cuts(t))):
            av = acts | t.fl.errs
            r = t.fl.cfg.reach([st], avoid=av)
            bad = [n for n in r if n[0].parent is None and n[0].body.blocks[n[1]][1][0] == "ret"]
            rep.require(not bad, lab + "/done", "%s: the run can succeed although nothing %s found at %s %s" % (lab, what, f.n, f.loc(bb)))
    spec = s.fl.handouts(lambda x: x.k == "Y" and x.b == yp + "/0" or x.k == "K" and x.a == "str" and x.b in ("N", "X"))
    for h in spec:
        if h[1] in {f for f, bb in s.seen}:
            continue
        if h[0] == "next":
            w = s.fl.early([h]) or s.fl.drops(h)
            rep.require(not w, lab + "/all", "%s: not every specification is applied (%s)" % (lab, w))
    outer = {s.fl.node(h) for h in s.fl.handouts(lambda x: x.k == "Y" and x.b.startswith(yp) or x.k == "K" and x.b in ("N", "X") or x.k == "P" and gchain(x) == s.cont[:-1])}
    new = news(s)
    for h in new:
        w = s.fl.must([h], nodes) or s.fl.early([h])
        rep.require(not w, lab + "/done", "%s: some of the new fields are not added (%s)" % (lab, w))
    outer |= {s.fl.node(h) for h in new}
    for n in nodes:
        r = s.fl.cfg.reach([(n[0], n[1], 1)], avoid=outer | s.fl.errs)
        rep.require(n not in r, lab + "/once", "%s: more than one addition to the fields for one match (%s %s)" % (lab, n[0].n, n[0].loc(n[1])))


def cover(rep, lab, s, adds, what, attr):
    """The loops that make up a value take all fields."""
    f0 = {f for f, bb in adds}
    for h in s.fl.handouts(lambda x: x.k == "P" and of_field(x, None) and gchain(x)[-1] in ("fields", "fields()")):
        k, f, bb = h
        inside = [a for a in adds if a[0] is f and (k == "closure" or a[1] in local_reach(f, [bb]) and bb in local_reach(f, [a[1]]))]
        if inside:
            rep.count("loops")
            w = k == "next" and s.fl.must([h], {(a, b, 0) for a, b in inside})
            rep.require(not w, lab + "/" + what, "%s: the %s of some fields are not taken in at %s" % (lab, what, w))
            w = k == "next" and s.fl.early([h])
            rep.require(not w, lab + "/" + what, "%s: the loop taking in the %s can be left early at %s" % (lab, what, w))
    for f, bb, n, cal, args, dest in s.fl.calls(*(DROP - {"retain", "retain_mut", "find", "remove", "clear", "find_map", "position"})):
        if not args or cal.get("inst") or s.fl.keeps(f, bb, n) or any(t in cal["n"] for t in ("::mem::", "::option::")) or (f, bb, 0) in cuts(s):
            continue
        if any(of_field(x, None) for a in args[:1] for x in reachable(a) if x.k == "P") and n not in ("last", "first"):
            if n == "skip" and len(args) > 1 and all(x.k == "K" and x.b == 0 for x in args[1]):
                continue
            rep.violation(lab + "/" + what, "%s: %s %s: `%s` leaves fields out" % (lab, f.n, f.loc(bb), n))


def merge(rep, row, lev):
    name, mk, sp, given = row
    ln, wrap, pre, cont = lev
    lab = name + ln
    doc, yp = wrap(mk()), pre + sp
    s = Scen(doc, yp, cont)
    rep.count("scenarios")
    rep.count("frames", len(s.eng.frames))
    ins = s.inserts()
    objs = {id(x): (e, x) for e, xs in ins for x in xs}
    rep.require(objs and all(xs for _, xs in ins), lab + "/result", "%s: no field with known attributes gets into the register" % lab)
    if not objs:
        return
    rep.require(s.seen, lab + "/result", "%s: the specification is compared with no name" % lab)
    for e, x in objs.values():
        c = cells(x)
        w = "%s %s" % (e.f.n, e.f.loc(e.bb))
        # name
        v = c.get("name", set())
        if given:
            rep.require(v and all(y.k == "K" and y.b == "N" for y in flat_refs(v)), lab + "/name", "%s: the merged field does not get the name given in the rule (%s)" % (lab, w))
        else:
            ok = v and last_attrs(v) == {"name"} and not any(y.k == "K" and y.a == "str" and y.b for y in parts(v)) and not any(y.k == "K" and y.b == S or y.k == "Y" for y in parts(v))
            rep.require(ok, lab + "/name", "%s: the name of the merged field is not made from those of the fields (%s)" % (lab, w))
            whole = any(y.k == "N" and any(of_field(z, "name") for a in y.eng.ninfo[y][1] for o in flat_refs(a) if o.k in "ON" for z in parts({o})) for y in tree(v))
            rep.require(whole, lab + "/name", "%s: the name of the merged field is that of one of the fields (%s)" % (lab, w))
        # bits
        for b in list(ends(c.get("bit_range", set()))) or [None]:
            if b is None:
                rep.violation(lab + "/bits", "%s: the merged field gets no bit range made from offset and width (%s)" % (lab, w))
                continue
            off, wid = b
            ks = {y.b for y in parts(off) if y.k == "K" and isinstance(y.b, int)}
            ops = {opname(y) for y in tree(off)}
            near = around(s, e)
            low = lambda *ns: any(last_attrs(f.cells[dest[0]].v) == {"offset"} or "_by" in n and any(of_field(x, "offset") for x in parts(args[0])) for f, bb, n, cal, args, dest in s.fl.calls(*ns) if f in near and dest[0] in f.cells)
            lows = low(*MIN) or any(q.op in ORD and q.f in near and all(last_attrs(a) == {"offset"} for a in q.sides) for q in comparisons(s.eng))
            rep.require(last_attrs(off) == {"offset"} and lows and not low("max", "max_by", "max_by_key") and all(k >= 0x7fffffff for k in ks) and not any(o.startswith("op:") or o in ("max", "last") for o in ops),
                        lab + "/offset", "%s: the merged field does not begin where the lowest of the fields does (%s)" % (lab, w))
            ks = {y.b for y in parts(wid) if y.k == "K" and isinstance(y.b, int)}
            ops = {opname(y) for y in tree(wid)}
            adding = {o for o in ops if o.startswith("op:Add") or o in ("sum", "fold", "add", "saturating_add", "checked_add", "wrapping_add")}
            rep.require(last_attrs(wid) == {"width"} and adding and ks <= {0} and not any(o.startswith("op:") and o not in adding or o in ("max", "min") for o in ops),
                        lab + "/width", "%s: the merged field is not as wide as the fields together (%s)" % (lab, w))
        for a in ("description", "access"):
            v = c.get(a, set())
            rep.require(last_attrs(v) == {a} and not any(y.k == "K" and y.a == "str" for y in parts(v)), lab + "/" + a, "%s: the %s of the merged field is not that of the fields (%s)" % (lab, a, w))
        for a, v in c.items():
            if a not in ("name", "description", "access", "bit_range"):
                rep.require(empty(v, s.eng), lab + "/else", "%s: the merged field also gets a %s (%s)" % (lab, a, w))
    adds = set()
    for f in s.eng.frames:
        for bb in f.reached:
            for dest, rv, loc in f.body.blocks[bb][0]:
                if rv[0] == "bin" and rv[1].startswith("Add") and any(of_field(x, "width") for o in rv[2:4] for x in parts(s.eng.operand(f, o, f.unit(bb)))):
                    adds.add((f, bb))
    cover(rep, lab, s, adds, "widths", "width")
    mins = {(f, bb) for f, bb, n, cal, args, dest in s.fl.calls("min") if any(of_field(x, "offset") for a in args for x in parts(a))}
    cover(rep, lab, s, mins, "offsets", "offset")
    removal(rep, lab, s, True)
    cut = cuts(s)
    rep.require(cut, lab + "/removed", "%s: the fields merged are not removed" % lab)
    passed(rep, lab, s, ins, yp)
    outside(rep, lab, s)
    # fields that are not meant
    s = Scen(doc, yp, cont, match=False, same=False)
    rep.count("scenarios")
    removal(rep, lab, s, False)
    for e, xs in s.inserts():
        for x in xs:
            c = cells(x)
            for a in ("description", "access", "bit_range"):
                bad = {y for y in parts(c.get(a, set())) if of_field(y, None)}
                rep.require(not bad, lab + "/others", "%s: the %s of fields that are not merged gets into the merged one (%s %s)" % (lab, a, e.f.n, e.f.loc(e.bb)))


def is_bit(x):
    """One of the numbers from 0 up to the width of the field"""
    if x.k != "N":
        return False
    if x.eng.ninfo[x][0].startswith("op:Add"):
        return counter(x.eng.ninfo[x][1][0]) and bounded(x)
    if x.eng.ninfo[x][0] != "range":
        return False
    a = x.eng.ninfo[x][1]
    return all(y.k == "K" and y.b == 0 for y in a[0]) and a[1] and all(of_field(y, "width") for y in a[1])


def texts(rep, lab, w, what, v, own, path, s):
    """The text given (or of the field) with the number of the bit put in."""
    v = {y for y in inner(v) if y is not s.eng.NONE}
    p = parts(v)
    ys = {y for y in p if y.k != "K" and rootname(y).k == "Y"}
    ps = {gchain(y)[-1] for y in p if y.k == "P" and of_field(y, None)} - {"width"}
    if path:
        ok = ys and all(rootname(y).b == path for y in ys) and not ps
        rep.require(ok, lab + "/" + what, "%s: the %s of the new fields is not made from the one given (%s)" % (lab, what, w))
    else:
        rep.require(ps == {own} and not ys, lab + "/" + what, "%s: the %s of the new fields is not made from that of the field (%s)" % (lab, what, w))
    for y in v:
        t = tree({y})
        bits = [n for n in t if is_bit(n)]
        plain = not any(opname(n).startswith("op:") and not is_bit(n) or n.eng.ninfo[n][0].endswith(ADDS) and any(map(is_bit, tree(n.eng.ninfo[n][1][0]))) and n.eng.ninfo[n][0] != "std::ops::Add::add" for n in t)
        rep.require(bits and plain, lab + "/" + what, "%s: the %s of the new fields does not have the number of the bit in it (%s)" % (lab, what, w))
    if path:
        pats = {k.b for y in tree(v) if opname(y) in ("replace", "replacen", "split", "split_once", "find") for a in y.eng.ninfo[y][1][1:2] for k in a if k.k == "K"}
        rep.require(pats == {"%s"}, lab + "/" + what, "%s: in the %s given, %s is replaced, not `%%s` (%s)" % (lab, what, sorted(map(str, pats)), w))


def inner(v):
    out = set()
    for y in flat_refs(v):
        if y.k == "O" and y.b == "adt" and y.c == (OPTION, 1):
            out |= set(flat_refs(y.cells[0].v))
        else:
            out.add(y)
    return out


def split(rep, row, lev):
    name, mk, sp, paths = row
    ln, wrap, pre, cont = lev
    lab = name + ln
    doc, yp = wrap(mk()), pre + sp
    s = Scen(doc, yp, cont)
    rep.count("scenarios")
    rep.count("frames", len(s.eng.frames))
    ins = s.inserts()
    objs = {id(x): (e, x) for e, xs in ins for x in xs}
    rep.require(objs and all(xs for _, xs in ins), lab + "/result", "%s: no fields with known attributes get into the register" % lab)
    if not objs:
        return
    for e, x in objs.values():
        c = cells(x)
        w = "%s %s" % (e.f.n, e.f.loc(e.bb))
        texts(rep, lab, w, "name", c.get("name", set()), "name", paths.get("name") and pre + paths["name"], s)
        d = c.get("description", set())
        rep.require(not empty(d, s.eng), lab + "/description", "%s: the new fields get no description (%s)" % (lab, w))
        texts(rep, lab, w, "description", d, "description", paths.get("description") and pre + paths["description"], s)
        for b in list(ends(c.get("bit_range", set()))) or [None]:
            if b is None:
                rep.violation(lab + "/bits", "%s: the new fields get no bit range made from offset and width (%s)" % (lab, w))
                continue
            off, wid = b
            ss = set()
            for y in off:
                ss |= summands(y)
            ok = ss and all(len(t) == 2 and sum(map(is_bit, t)) == 1 and sum(of_field(z, "offset") for z in t) == 1 for t in ss)
            rep.require(ok, lab + "/offset", "%s: the new fields do not lie at the offset of the field plus 0 up to its width (%s)" % (lab, w))
            rep.require(all(y.k == "K" and y.b == 1 for y in wid), lab + "/width", "%s: the new fields are not one bit wide (%s)" % (lab, w))
        for a, v in c.items():
            if a not in ("name", "description", "bit_range"):
                rep.require(empty(v, s.eng) or last_attrs(v) == {a}, lab + "/else", "%s: the new fields also get a %s (%s)" % (lab, a, w))
    # one at a time
    t = Scen(doc, yp, cont, mode="several")
    if t.picks or any(map(counts, {x for f, bb, n, cal, args, dest in t.fl.calls("len", "count") if dest[0] in f.cells for x in f.cells[dest[0]].v})):
        rep.count("scenarios")
        st = [(f, bb, 1) for f, bb in t.picks] or [(f, bb, 1) for f, bb in t.seen]
        ok = [n for n in t.fl.cfg.reach(st, avoid=t.fl.errs) if n[0].parent is None and n[0].body.blocks[n[1]][1][0] == "ret"]
        rep.require(not ok, lab + "/one", "%s: the run can succeed though the specification covers several fields" % lab)
    # every bit
    grow = {(f, bb, 0) for f, bb, n, cal, args, dest in s.fl.calls(*GROW) if not cal.get("inst") and any(x.k == "O" and is_builder(x, "FieldInfo") for a in args[1:] for x in reachable(a))}
    loops = s.fl.handouts(is_bit)
    whiles = [q for q in comparisons(s.eng) if q.op in ORD and any(counter(a) for a in q.sides) and any(last_attrs(a) == {"width"} for a in q.sides)]
    for q in whiles:
        ok = any(f is q.f and q.bb in local_reach(f, [b]) and b in local_reach(f, [q.bb]) for f, b, _ in grow) and all(any(x.k == "K" and x.b == 0 for x in a) for a in q.sides if counter(a))
        rep.require(ok, lab + "/bits", "%s: no field for the bits counted at %s" % (lab, q.where))
    rep.require(loops or whiles, lab + "/bits", "%s: the bits of the field are not counted" % lab)
    for h in loops:
        if h[0] == "next":
            rep.count("loops")
            w = s.fl.must([h], grow) or s.fl.early([h])
            rep.require(not w, lab + "/bits", "%s: no field for some of the bits (%s)" % (lab, w))
    for f, bb, n, cal, args, dest in s.fl.calls(*DROP):
        if args and not cal.get("inst") and any(x.k == "O" and is_builder(x, "FieldInfo") or is_bit(x) for x in reachable(args[0])) and not any(gchain(x) == cont for x in reachable(args[0]) if x.k == "P") and not s.fl.keeps(f, bb, n):
            rep.violation(lab + "/bits", "%s: %s %s: `%s` leaves out bits" % (lab, f.n, f.loc(bb), n))
    removal(rep, lab, s, True)
    cut = cuts(s)
    rep.require(cut, lab + "/removed", "%s: the field split is not removed" % lab)
    passed(rep, lab, s, ins, yp)
    outside(rep, lab, s)
    s = Scen(doc, yp, cont, same=False)
    rep.count("scenarios")
    removal(rep, lab, s, False)


def check(rep):
    for lev in LEVELS:
        for row in MERGES:
            merge(rep, row, lev)
        for row in SPLITS:
            split(rep, row, lev)
    return ("One abstract document per form of `_merge` and `_split` and level, the matcher answering that fields are covered: the attributes of the field(s) added (name, description, access, bit range) read off the builder and traced to the rule or to the "
            "fields; minimum of the offsets, sum of the widths over all fields; for splits one field per number from 0 up to the width, with that number in name, description and offset; the predicate removing fields gives up those found; "
            "success impossible without both; one addition per match; several fields covered by a `_split` is an error. Matcher and name comparison answering no: nothing is removed and no field contributes.")


ASSUME = ["names of fields are unique within a register", "`commands::util::longest_common_prefix` gives the longest common prefix"]
