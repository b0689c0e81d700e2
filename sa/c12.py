"""Registers and fields are collected into arrays and clusters only when these describe the same places."""
from flow import *
import c31
from c31 import DERIVE

EQ = {"Eq": True, "Ne": False, "eq": True, "ne": False}
ORD = ("Lt", "Le", "Gt", "Ge", "lt", "le", "gt", "ge")
CFG = {"update_fields": True, "enum_derive": (DERIVE, "None")}
MANY = 3


class Comp:
    """A comparison: in the statements of a block or a call of PartialEq/PartialOrd."""

    def __init__(self, f, bb, op, sides, local=None, at=None):
        self.f, self.bb, self.op, self.sides, self.local, self.at = f, bb, op, sides, local, at
        self.parts = [parts(s) for s in sides]
        self.attrs = [{gchain(x)[-1] for x in p if x.k == "P" and gchain(x)} for p in self.parts]
        self.node = (f, bb, 0)

    @property
    def where(self):
        return "%s %s" % (self.f.n, self.f.loc(self.bb))

    def answer(self, truth):
        """Can the run succeed once the comparison was answered `truth`?"""
        eng = self.f.eng
        v = {eng.TRUE if truth else eng.FALSE}
        if self.local is None:
            top = eng.continue_from(self.f, self.bb, v)
        else:
            top = eng.continue_from(self.f, self.bb, None, locals=self.follow(v))
        return may_ok(eng, top.ret.v)

    def follow(self, v):
        """The locals of the rest of the block that hold the answer."""
        eng = self.f.eng
        out = {self.local: v}
        for st in self.f.body.inst["blocks"][self.bb][0][self.at + 1:]:
            d, rv = st[0], st[1]
            src = rv[1] if rv[0] == "use" else rv[2] if rv[0] == "un" and rv[1] == "Not" else None
            if d[1]:
                continue
            if src is not None and src[0] != "k" and not src[1][1] and src[1][0] in out:
                w = out[src[1][0]]
                out[d[0]] = w if rv[0] == "use" else {eng.FALSE if x is eng.TRUE else eng.TRUE for x in w}
            else:
                out.pop(d[0], None)
        return out


def comparisons(eng):
    for f in list(eng.frames):
        if f.body.start is not None:
            continue
        for bb in f.reached:
            if bb not in f.body.blocks:
                continue
            for i, (dest, rv, loc) in enumerate(f.body.blocks[bb][0]):
                if rv[0] == "bin" and (rv[1] in EQ or rv[1] in ORD):
                    u = f.unit(bb)
                    s = [set(eng.operand(f, o, u)) for o in rv[2:4]]
                    yield Comp(f, bb, rv[1], s, f.body.inst["blocks"][bb][0][i][0][0], i)
        for bb, (cal, args, dest) in f.calls.items():
            n = cal["n"].rsplit("::", 1)[-1]
            if cal["n"].startswith("std::cmp::Partial") and "inst" not in cal and (n in EQ or n in ORD) and len(args) == 2:
                yield Comp(f, bb, n, list(args))


def length(x):
    """Is it the number of elements of a list that was made here?"""
    return x.k == "N" and x.eng.ninfo[x][0] in ("len", "un:PtrMetadata") and not any(y.k == "K" and y.a == "str" or y.k == "S" for a in x.eng.ninfo[x][1] for y in flat_refs(a))


class Scen:
    def __init__(self, doc, keys, name, hits=True, many=MANY, fixed=False):
        self.many = many
        self.doc, self.keys, self.name = doc, keys, name
        h0, d0 = c31.hook_of(name), c31.derived_ok(name)

        def hook(c):
            if c.n == MATCH:
                return {c.eng.TRUE if hits else c.eng.FALSE}
            if fixed and c.n.rsplit("::", 1)[-1] == "len" and c.args and "inst" not in c.callee and any(gchain(x)[-1:] == ("Register/0",) for x in deep(c.args[0]) if x.k == "P") and all(x.k != "P" for x in flat_refs(c.args[0])):
                return {c.eng.const("int", many)}
            return h0(c)

        def init(eng):
            def hb(f, bb, op, s1, s2):
                if op not in EQ and op not in ORD:
                    return None
                for a, b, o in ((s1, s2, op), (s2, s1, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
                    if a and all(map(length, a)) and len(b) == 1:
                        k = next(iter(b))
                        if k.k == "K" and isinstance(k.b, int) and k.b <= 2:
                            # there are several elements; the parts of a pair are two
                            n = 2 if k.b == 2 and op in EQ else many
                            return {eng.TRUE if {"Eq": n == k.b, "Ne": n != k.b, "Lt": n < k.b, "Le": n <= k.b, "Gt": n > k.b, "Ge": n >= k.b}[o] else eng.FALSE}
                return None
            eng.hook_bin = hb
        self.run = patch_run(doc, hook=hook, disc=d0, config=CFG, keys=True, init=init)
        self.eng = self.run.eng
        self.fl = Flow.__new__(Flow)
        self.fl.run, self.fl.eng = self.run, self.eng
        self.fl.cfg, self.fl.errs = Icfg(self.eng), err_nodes(self.eng)
        self.comps = list(comparisons(self.eng))
        self.rules = self.fl.handouts(lambda x: x.k == "K" and x.a == "str" and x.b in keys or x.k == "Y" and x.c in keys)

    def acts(self, comps):
        """Nodes one of which is passed when the comparisons are made for the elements: they themselves and the loops they are in."""
        out = set()
        for c in comps:
            f, bb = c.f, c.bb
            out.add(c.node)
            for b in f.calls:
                if f.calls[b][0]["n"].rsplit("::", 1)[-1] in TAKE and bb in local_reach(f, [b]) and b in local_reach(f, [bb]):
                    out.add((f, b, 0))
            if f.parent is not None and f.key[1]:
                out.add((f.parent, f.key[0], 0))
        return out

    def loops(self, comps):
        for c in comps:
            f, bb = c.f, c.bb
            for b in f.calls:
                if f.calls[b][0]["n"].rsplit("::", 1)[-1] in TAKE and bb in local_reach(f, [b]) and b in local_reach(f, [bb]):
                    yield ("next", f, b)
            if f.parent is not None and f.key[1]:
                yield ("closure", f, f.body.entry)


SMALL = {"address_offset", "size", "offset", "dim_increment"}
OFFSET = {"R": "address_offset", "F": "offset"}


def zero(c, i):
    return any(x.k == "K" and x.b == 0 for x in c.sides[i]) and all(x.k == "K" for x in c.sides[i])


GATES = {
    # what has to be compared: (which comparisons, the answer that has to make the run fail)
    "increments": lambda k: lambda c: c.op in EQ and all(OFFSET[k] in a and a <= SMALL for a in c.attrs),
    "bit masks": lambda k: lambda c: c.op in EQ and all({"offset", "width"} <= a for a in c.attrs),
    "widths": lambda k: lambda c: c.op in EQ and all(a == {"width"} for a in c.attrs),
    "zero increment": lambda k: lambda c: c.op in EQ and any(zero(c, i) and (c.attrs[1 - i] & {OFFSET[k], "size"} or any(x.k == "Y" and x.b.endswith("/dimIncrement") for x in leaves(c.sides[1 - i]))) for i in (0, 1)),
    "descriptions": lambda k: lambda c: c.op in EQ and all("description" in a for a in c.attrs),
    "display names": lambda k: lambda c: c.op in EQ and all("display_name" in a for a in c.attrs),
    "numbers": lambda k: lambda c: c.op in EQ and all(any(length(x) for x in s) for s in c.sides),
    "indices": lambda k: lambda c: c.op in EQ and all("name" in a and not a - {"name"} for a in c.attrs) and c.local is None,
    "dim blocks": lambda k: lambda c: c.op in EQ and all(a and all(p.k != "P" or any(g.startswith("Array/1") for g in gchain(p)[-2:]) for p in ps) for a, ps in zip(c.attrs, c.parts)),
    "outside": lambda k: lambda c: c.op in ORD and all(OFFSET[k] in a for a in c.attrs),
}
WHY = {
    "increments": "the distances of the elements are not all the same",
    "bit masks": "the fields of the elements cover different bits",
    "widths": "the fields have different widths",
    "zero increment": "the distance of the elements is not known",
    "descriptions": "the descriptions differ",
    "display names": "the display names differ",
    "numbers": "there are more elements of one register than of another",
    "indices": "the elements of two registers have different indices",
    "dim blocks": "the arrays collected differ in dim, increment or index",
    "outside": "a register lies behind the distance of the cluster elements",
}
LOOSE = ("numbers", "indices", "dim blocks")  # not for the first register, or only for arrays
PART = ("chunks", "chunks_exact", "rchunks", "tuples", "array_chunks", "as_chunks", "tuple_combinations")


def gate(rep, s, lab, k, name):
    comps = [c for c in s.comps if GATES[name](k)(c)]
    if not comps:
        rep.violation("%s/%s" % (lab, name), "%s: nothing is compared to see whether %s" % (lab, WHY[name]))
        return
    good = []
    for c in comps:
        rep.count("comparisons")
        if name == "outside":
            if not (c.answer(True) and c.answer(False)):
                good.append(c)
        else:
            diff = EQ[c.op] if name == "zero increment" else not EQ[c.op]
            if not c.answer(diff):
                good.append(c)
            elif name not in ("descriptions", "display names"):
                rep.violation("%s/%s" % (lab, name), "%s: the run can succeed though %s (compared in %s)" % (lab, WHY[name], c.where))
                return
    rep.require(good, "%s/%s" % (lab, name), "%s: the run can succeed though %s (compared in %s)" % (lab, WHY[name], comps[0].where))
    if not good:
        return
    if name == "dim blocks":
        seen = set.union(*[c.attrs[0] & c.attrs[1] for c in comps])
        rep.require("Array/1" in seen or {"dim", "dim_increment", "dim_index"} <= seen, "%s/%s" % (lab, name), "%s: only %s are compared to see whether %s (%s)" % (lab, sorted(seen), WHY[name], comps[0].where))
    nodes = {c.node for c in comps} | carried(s, comps, k)
    for h in s.loops(comps):
        w = name not in LOOSE and s.fl.must([h], nodes | s.acts(comps) - {s.fl.node(h)})
        rep.require(not w, "%s/%s" % (lab, name), "%s: not all elements are looked at to see whether %s (%s)" % (lab, WHY[name], w))
        w = dropped(s, h, k)
        rep.require(not w, "%s/%s" % (lab, name), "%s: elements are left out when seeing whether %s: %s" % (lab, WHY[name], w))
    if name not in LOOSE:
        up = set()
        for c in comps:
            g = c.f
            while g is not None:
                up.add(g)
                g = g.parent
        ws = [s.fl.must([h], s.acts(comps)) for h in s.rules if h[1] in up]
        rep.require(ws and not all(ws), "%s/%s" % (lab, name), "%s: the run can succeed without seeing whether %s (%s)" % (lab, WHY[name], ws[0] if ws else "no rule read"))


def carried(s, comps, k):
    """Where the loops of the comparisons find that there is no earlier element to compare with yet."""
    out = set()
    eng = s.eng
    for f in {c.f for c in comps}:
        nexts = {d[0] for b, (cal, a, d) in f.calls.items() if cal["n"].rsplit("::", 1)[-1] in TAKE}
        for bb in f.reached:
            if bb not in f.body.blocks:
                continue
            sts, t = f.body.blocks[bb][:2]
            if t[0] != "switch" or not sts or sts[-1][1][0] != "disc":
                continue
            p = sts[-1][1][1]
            vs = eng.place(f, p, f.unit(bb))
            some = [x for x in flat_refs(vs) if x.k == "O" and x.b == "adt" and x.c == (OPTION, 1)]
            if not some or eng.NONE not in flat_refs(vs) or p[0] in nexts:
                continue
            if any(OFFSET[k] in g for x in some for g in attrs({x})):
                out |= {(f, tgt, 0) for val, tgt in t[2] if val == 0} or {(f, t[3], 0)}
    return out


def dropped(s, h, k):
    """Adapters that hide elements from a comparison (the first may be left out: the others are compared with it)."""
    kk, f, bb = h
    if kk == "closure":
        bb = f.key[0]
        f = f.parent
    args = f.calls[bb][1]
    mine = iterobjs(args[0])
    win = False
    for g, b, n, cal, a, dest in s.fl.calls("windows", "tuple_windows"):
        win |= g is f
    for g, b, n, cal, a, dest in s.fl.calls(*(DROP | set(PART))):
        if not a or (g, b) == (f, bb) or g is not f:
            continue
        hit = iterobjs(a[0]) & mine or n in PART and attrs(a[0]) & attrs(args[0])
        if not hit or s.fl.keeps(g, b, n):
            continue
        if n == "skip" and len(a) > 1 and all(x.k == "K" and x.b <= (0 if win else 1) for x in a[1]):
            continue
        if n in ("last", "first", "find", "find_map", "position", "remove", "swap_remove", "clear", "pop"):
            continue
        return "%s %s (%s)" % (g.n, g.loc(b), n)
    return None


def plain_len(x, d=0):
    if x.k == "K":
        return x.b == 0
    if length(x):
        return True
    return d < 6 and x.k == "N" and x.eng.ninfo[x][0].startswith(PASS) and all(plain_len(y, d + 1) for y in x.eng.ninfo[x][1][0])


def difference(x):
    """A distance of two elements, or that of the rule or the size for a single one -> problem or None"""
    if x.k == "K":
        return None if x.b == 0 else "the constant %s" % x.b
    if x.k == "N":
        n, a = x.eng.ninfo[x][:2]
        at = {g[-1] for g in attrs({x}) if g}
        if n.startswith("op:Sub") or n.rsplit("::", 1)[-1] in ("wrapping_sub", "checked_sub", "saturating_sub", "abs_diff"):
            return None if at and at <= SMALL - {"size"} else "made from %s" % sorted(at)
        if n.startswith("op:Div"):
            return None if at <= {"size"} and {y.b for y in a[1] if y.k == "K"} == {8} else "made from %s" % sorted(at)
        if n.startswith("op:Shr"):
            return None if at <= {"size"} and {y.b for y in a[1] if y.k == "K"} == {3} else "made from %s" % sorted(at)
        if n.startswith("op:"):
            return "the result of " + n[3:]
        for y in a[0] if a else ():
            w = difference(y)
            if w:
                return w
    return None


def fields_of(x):
    out = {}
    for k, c in x.cells.items():
        if isinstance(k, str):
            out.setdefault(k.lstrip("@"), set()).update(c.v)
    return out


def added(s):
    from c28 import is_builder, reachable, GROW
    out = []
    for e in effects(s.eng):
        if e.kind == "call" and e.field in GROW:
            for a in e.args[1:]:
                for x in reachable(a):
                    if x.k == "O" and is_builder(x, "DimElement") and (e, x) not in out:
                        out.append((e, x))
    return out


def results(rep, s, lab, k, zero_):
    got = added(s)
    rep.require(got, lab + "/result", "%s: no array gets into the device" % lab)
    for e, x in got:
        if not any((gchain(t)[-1:] == ("fields",)) == (k == "F") for t in e.targets):
            continue  # of a cluster the same rule also applies to
        c = fields_of(x)
        w = "%s %s" % (e.f.n, e.f.loc(e.bb))
        for y in c.get("dim", set()):
            rep.require(plain_len(y), lab + "/dim", "%s: the dim of the array is not the number of elements collected (%s)" % (lab, w))
        rep.require(c.get("dim"), lab + "/dim", "%s: the array gets no dim (%s)" % (lab, w))
        inc = c.get("dim_increment", set())
        bad = [d for d in map(difference, inc) if d]
        if not lab.startswith("_cluster"):
            bad += ["that of a single one" for y in inc if s.many > 1 and not any(OFFSET[k] in g for g in attrs({y}))]
        rep.require(inc and not bad, lab + "/dimIncrement", "%s: the increment of the array is not the distance of the elements: %s (%s)" % (lab, bad or "none", w))
        at = {g[-1] for g in attrs(inc) if g}
        rep.require(OFFSET[k] in at or s.many == 1, lab + "/dimIncrement", "%s: the increment of the array is made from %s (%s)" % (lab, sorted(at), w))
        at = {g[-1] for g in attrs(c.get("dim_index", set())) if g}
        if zero_:
            rep.require("name" not in at and c.get("dim_index"), lab + "/dimIndex", "%s: the elements are not numbered from zero (%s)" % (lab, w))
        else:
            rep.require(at == {"name"}, lab + "/dimIndex", "%s: the indices are not taken from the names of the elements but from %s (%s)" % (lab, sorted(at), w))
    nodes = set()
    for f, bb, n, cal, args, dest in s.fl.calls():
        if n.startswith("sort") and args and not cal.get("inst") and not n.endswith("unstable_by_nothing"):
            rs = set()
            for (key, m), kid in f.kids.items():
                if key[0] == bb and key[1]:
                    rs |= kid.ret.v
            at = {g[-1] for g in attrs(rs) if g}
            rev = any(y.k == "O" and y.b == "adt" and str(y.c[0]).endswith("Reverse") for y in rs)
            if OFFSET[k] in at and at <= {OFFSET[k], "name"} and not rev:
                nodes.add((f, bb, 0))
    ws = [s.fl.must([h], nodes) for h in s.rules] if nodes else ["no sorting"]
    rep.require(not all(ws), lab + "/order", "%s: the elements are not put in the order of their addresses: %s" % (lab, ws[0]))


SHIFT = ("op:Shl", "op:ShlWithOverflow", "op:ShlUnchecked")


def masks(rep, s, lab):
    """The bit mask of a register holds all bits of all its fields."""
    for c in [c for c in s.comps if GATES["bit masks"]("R")(c)][:1]:
        seen, todo, ok, wrong = set(), [x for q in c.sides for x in q], False, None
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "N":
                n, a = s.eng.ninfo[x][:2]
                if n in SHIFT or n.rsplit("::", 1)[-1] in ("wrapping_shl", "checked_shl"):
                    r = {g[-1] for g in attrs(a[1]) if g}
                    l = {g[-1] for g in attrs(a[0]) if g}
                    if r == {"offset"} and l == {"width"}:
                        ok = True
                    elif r != {"width"}:
                        wrong = "shifted by %s" % sorted(r)
                for q in a:
                    todo.extend(q)
            elif x.k == "R":
                todo.extend(x.cell.v)
            elif x.k == "O":
                for cc in x.cells.values():
                    todo.extend(cc.v)
            elif x.k == "P":
                todo.append(x.a)
        rep.require(ok and not wrong, lab + "/mask", "%s: the bit mask compared is not made of the bits of the fields (%s)" % (lab, wrong or "no shift by the offset"))
    for h in s.fl.handouts(lambda x: is_dev(x) and owner_of(x) == "Field" and x.b != "name"):
        if h[1].n.rsplit("::", 1)[-1].startswith("get_bitmask"):
            w = s.fl.drops(h)
            rep.require(not w, lab + "/mask", "%s: fields are left out of the bit mask: %s" % (lab, w))


def base(rep, s, lab):
    """Offsets in a cluster are relative to the lowest one."""
    es = [e for e in effects(s.eng) if e.kind == "set" and e.field == "address_offset"]
    subs = [e for e in es if any(x.k == "N" and ("Sub" in s.eng.ninfo[x][0] or "sub" in s.eng.ninfo[x][0]) for x in reach_n(e.vals))]
    rep.require(subs, lab + "/base", "%s: the offsets of the registers are not made relative to the cluster" % lab)
    lows = set()
    for f, bb, n, cal, args, dest in s.fl.calls():
        if n in ("min", "min_by_key", "min_by", "fold", "reduce", "sort", "sort_by_key", "sort_by", "minmax") and any(g[-1:] == ("address_offset",) for a in args for g in attrs(a)) or n.startswith("min") and any(
                g[-1:] == ("address_offset",) for (key, m), kid in f.kids.items() if key[0] == bb for g in attrs(kid.ret.v)):
            if not n.startswith("sort"):
                lows.add((f, bb, 0))
    for c in s.comps:
        if c.op in ORD and all(a == {"address_offset"} for a in c.attrs) and all(any(x.k == "P" for x in flat_refs(q)) for q in c.sides):
            lows |= s.acts([c])
    ws = [s.fl.must([h], lows | {(e.f, e.bb, 0) for e in ()}) for h in s.rules if h[1].n.rsplit("::", 1)[-1] not in ("matchsubspec", "spec_ind")]
    root = s.eng.frames[0]
    r = s.fl.cfg.reach([(root, root.body.entry, 0)], avoid=lows | s.fl.errs)
    hit = [e for e in subs if (e.f, e.bb, 0) in r]
    rep.require(lows and not hit, lab + "/base", "%s: the offset of the cluster is not the lowest of its registers (%s)" % (lab, hit[0].f.loc(hit[0].bb) if hit else "no minimum taken"))


def reach_n(atoms):
    out, todo = set(), list(atoms)
    while todo and len(out) < 400:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if x.k == "R":
            todo.extend(x.cell.v)
        elif x.k == "N":
            for q in x.eng.ninfo[x][1]:
                todo.extend(q)
    return out


def products(eng, e):
    for x in reach_n(e.vals):
        if x.k == "N" and (eng.ninfo[x][0].startswith("op:Mul") or eng.ninfo[x][0].endswith("_mul")):
            yield x


def expansion(rep):
    for lab, doc, name in (("_expand_cluster", {"P": {"_expand_cluster": ["A*"]}}, "_expand_cluster"), ("_expand_array", {"P": {"_expand_array": {"A*": {}}}}, "_expand_array")):
        s = Scen(doc, {"A*"}, name)
        eng = s.eng
        rep.count("scenarios")
        pushes = [(f, bb, args) for f, bb, n, cal, args, dest in s.fl.calls("push", "push_back", "insert", "extend") if not cal.get("inst") and len(args) > 1]
        if lab == "_expand_array":
            acts = {(f, bb, 0) for f, bb, args in pushes if any(expanded(y) for y in deep(args[1]))}
            w = s.fl.prove([("expanded registers", expanded)], acts) if not acts else None
            hs = s.fl.handouts(expanded)
            rep.require(acts and hs, lab, "%s: the registers of the array do not get into the device" % lab)
            for h in hs:
                w = s.fl.node(h) not in acts and (s.fl.must([h], acts) or s.fl.early([h])) or s.fl.drops(h)
                for g, b, n, cal, a, dest in s.fl.calls(*DROP):
                    if a and not s.fl.keeps(g, b, n) and any(y.k == "N" and expanded(y) for y in flat_refs(a[0])):
                        w = w or "%s (%s)" % (g.loc(b), n)
                rep.require(not w, lab, "%s: elements of the array are left out at %s" % (lab, w))
            continue
        for kind in ("Register", "Cluster"):
            es = [e for e in effects(eng) if e.kind == "set" and e.field == "address_offset" and any(gchain(t)[-1:] == (kind + "/0",) for t in e.targets)]
            own = lambda x: x.k == "P" and is_dev(x) and gchain(x)[-1:] == (kind + "/0",) and "clusters()" in gchain(x)
            hs = s.fl.handouts(lambda x: x.k == "P" and is_dev(x) and "clusters()" in gchain(x) and gchain(x)[-1] in ("registers()", kind + "/0", "clusters()") and gchain(x).count("clusters()") + gchain(x).count("registers()") == (2 if kind == "Register" else 2))
            start = {(e.f, e.bb, 0) for e in es}
            cl = {(e.f, e.bb, 0) for e in es if any(x.k == "P" and gchain(x)[-2:] == ("clusters()", "address_offset") or x.k == "P" and gchain(x)[-1] == "address_offset" and owner_of_ctag(x) for x in reach_n(e.vals))}
            pr = set()
            for e in es:
                for x in products(eng, e):
                    a, b = [{g[-1] for g in attrs(q) if g} for q in eng.ninfo[x][1][:2]]
                    if "dim_increment" in a | b and a != b:
                        pr.add((e.f, e.bb, 0))
                    else:
                        rep.violation(lab, "%s: the offset of an element is a product of %s and %s (%s)" % (lab, sorted(a), sorted(b), e.f.loc(e.bb)))
            rep.require(cl, lab, "%s: the offset of the cluster is not added to that of its %ss" % (lab, kind.lower()))
            rep.require(pr, lab, "%s: the increment of the cluster array is not added to the offset of its %ss" % (lab, kind.lower()))
            for e in es:
                bad = [eng.ninfo[x][0] for x in reach_n(e.vals) if x.k == "N" and eng.ninfo[x][0].startswith("op:") and not eng.ninfo[x][0].startswith(("op:Add", "op:Mul"))]
                rep.require(not bad, lab, "%s: offsets are computed by %s (%s)" % (lab, bad[:1], e.f.loc(e.bb)))
        # all elements of the array
        rng = []
        for f in eng.frames:
            for bb, (cal, args, dest) in f.calls.items():
                if cal["n"].rsplit("::", 1)[-1] != "next" or not args:
                    continue
                for x in reachable_o(args[0]):
                    if x.k == "O" and x.b == "adt" and "::Range" in str(x.c[0]):
                        cs = [c.v for k, c in sorted(x.cells.items(), key=lambda kv: str(kv[0]))]
                        at = {g[-1] for v in cs for g in attrs(v) if g}
                        if "dim" in at:
                            rng.append((f, bb, x))
        for f, bb, x in rng:
            lo = {y.b for k, c in x.cells.items() for y in c.v if y.k == "K" and str(k) in ("0", "start")}
            hi = [y for k, c in x.cells.items() for y in c.v if str(k) not in ("0", "start")]
            rep.require(lo <= {0} and "Inclusive" not in x.c[0] and all(y.k == "P" for y in hi), lab, "%s: the elements do not run from 0 up to dim (%s)" % (lab, f.loc(bb)))
            acts = {(g, b, 0) for g, b, args in pushes if any(y.k == "P" and is_dev(y) and "clusters()" in gchain(y) and gchain(y)[-1] in ("Register/0", "Cluster/0") for y in deep(args[1]))}
            kids = s.fl.handouts(lambda y: y.k == "P" and is_dev(y) and gchain(y)[-1:] in (("registers()",), ("clusters()",)) and gchain(y).count("clusters()") >= 1 and len(gchain(y)) >= 3)
            inner = [h for h in kids if h[1] is f and h[2] in local_reach(f, [bb]) and bb in local_reach(f, [h[2]])]
            for h in inner:
                w = s.fl.must([h], acts) or s.fl.early([h]) or s.fl.drops(h)
                rep.require(not w, lab, "%s: content of the cluster is left out at %s" % (lab, w))
        rep.ok(lab)


def owner_of_ctag(x):
    return False


def reachable_o(atoms):
    from c28 import reachable
    return reachable(atoms)


def deep(atoms):
    """Also the values objects and paths are made of."""
    out, todo = set(), list(atoms)
    while todo and len(out) < 600:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if x.k == "R":
            todo.extend(x.cell.v)
        elif x.k == "O":
            for c in x.cells.values():
                todo.extend(c.v)
        elif x.k == "P":
            todo.append(x.a)
    return out


RG = ("increments", "bit masks", "zero increment", "descriptions", "display names")
FG = ("increments", "widths", "descriptions")
CG = ("increments", "bit masks", "numbers", "indices", "dim blocks", "outside")
Z = {"_start_from_zero": "$str"}
PLACES = [
    ("_array of registers", lambda b: {"P": {"_array": {"A*": b}}}, "R", RG),
    ("_array of registers in cluster", lambda b: {"P": {"_clusters": {"C": {"_array": {"A*": b}}}}}, "R", RG),
    ("_array of fields", lambda b: {"P": {"R": {"_array": {"A*": b}}}}, "F", FG),
    ("_cluster", lambda b: {"P": {"_cluster": {"N%s": {"A*": b, "B*": {}}}}}, "R", CG),
    ("_cluster in cluster", lambda b: {"P": {"_clusters": {"C": {"_cluster": {"N%s": {"A*": b, "B*": {}}}}}}}, "R", CG),
]


def check(rep):
    def job(i):
        r = Report(rep.prop)
        if i == len(PLACES):
            expansion(r)
            return r
        if i == len(PLACES) + 1:
            for lab, doc in (("_cluster of one", {"P": {"_cluster": {"N": {"A*": {}}}}}), ("_cluster of one in cluster", {"P": {"_clusters": {"C": {"_cluster": {"N": {"A*": {}}}}}}})):
                s = Scen(doc, {"A*"}, "_cluster", fixed=True)
                r.count("scenarios")
                ws = [s.fl.must([h], ()) for h in s.rules]
                r.require(ws and not all(ws), lab, "%s: the run can succeed though several registers are collected (%s)" % (lab, ws[:1]))
            return r
        lab, mk, k, gates = PLACES[i]
        s = Scen(mk({}), {"A*", "B*"}, lab)
        r.count("scenarios")
        r.count("frames", len(s.eng.frames))
        results(r, s, lab, k, False)
        if k == "R":
            masks(r, s, lab)
        if lab.startswith("_cluster"):
            base(r, s, lab)
        else:
            z = Scen(mk(Z), {"A*", "B*"}, lab)
            r.count("scenarios")
            results(r, z, lab + " (from zero)", k, True)
        for g in gates:
            gate(r, s, lab, k, g)
        full = Scen(mk({"name": "$str", "description": "$str", "displayName": "$str", "dimIncrement": "$int"}), {"A*", "B*"}, lab)
        r.count("scenarios")
        for g in gates:
            if not g.startswith("d") and g not in LOOSE:
                gate(r, full, lab + " (named)", k, g)
        if "zero increment" in gates:
            for b in ({}, {"dimIncrement": "$int"}):
                one = Scen(mk(b), {"A*", "B*"}, lab, many=1)
                r.count("scenarios")
                results(r, one, lab + " (one)", k, False)
                gate(r, one, lab + " (one)", k, "zero increment")
        r.ok(lab)
        return r
    for r in parallel(job, len(PLACES) + 2, 7):
        rep.merge(r)
    return ("The collecting rules interpreted from patch::process_reader on an abstract device; the comparisons of offsets, bit masks, widths, descriptions, indices and dim blocks found by what their operands are made of; "
            "from each of them, answered `different`, the rest of the run (up the whole call path) is analysed and must fail; every path from the rule to success makes the comparisons, for all elements; the array put into the device has "
            "the number, distance and indices of the elements.")


ASSUME = ["slice::windows(2) hands out pairs"]
