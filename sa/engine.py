"""Abstract interpreter over the MIR facts of /repo (sparse conditional constant propagation plus
value flow, fully context-sensitive: every local call and closure is analysed per call path).

Nothing is executed: values are finite sets of atoms (constants, allocation sites, references, opaque
symbols, projections and opaque call results), branches are followed for every value an operand may have, and
the whole is a monotone fixpoint."""
import sys

sys.setrecursionlimit(20000)

OPTION = "std::option::Option"
RESULT = "std::result::Result"
CFLOW = "std::ops::ControlFlow"
YAML = "yaml_rust2::Yaml"
YVAR = ["Real", "Integer", "String", "Boolean", "Array", "Hash", "Alias", "Null", "BadValue"]
EMPTY = frozenset()
WRAP = ("Some", "Ok", "Err", "elem", "{key}", "{val}")


class Atom:
    __slots__ = ("k", "a", "b", "c", "eng", "cell", "cells", "ty", "depth", "id")

    def __init__(self, k, a=None, b=None, c=None):
        self.k = k
        self.a = a
        self.b = b
        self.c = c
        self.cell = None
        self.cells = None
        self.ty = None
        self.depth = 0

    def __repr__(self):
        return show(self)


def show(x, d=0):
    if isinstance(x, (set, frozenset, list)):
        return "{" + ", ".join(sorted(show(y, d) for y in x)) + "}"
    if not isinstance(x, Atom):
        return repr(x)
    if d > 6:
        return ".."
    if x.k == "K":
        return "%s" % (x.b,) if x.a != "str" else repr(x.b)
    if x.k == "S":
        return "$" + x.a
    if x.k == "P":
        return show(x.a, d + 1) + "." + (x.b if isinstance(x.b, str) else "/".join(map(str, x.b)))
    if x.k == "N":
        return "N<%s>" % (x.eng.ninfo[x][0] if x in x.eng.ninfo else x.b,)
    if x.k == "U":
        return "%s#%s" % (x.a.split("::")[-1], x.b)
    if x.k == "O":
        fs = ""
        if x.cells and d < 3:
            fs = "(" + ", ".join("%s=%s" % (k, show(c.v, d + 1)) for k, c in x.cells.items()) + ")"
        return "%s:%s%s%s" % (x.b, x.c if not isinstance(x.c, tuple) else x.c[0].split("::")[-1] + "#" + str(x.c[1]), "", fs)
    if x.k == "R":
        return "&mut"
    if x.k == "Y":
        return "yaml<%s>" % x.b
    if x.k == "F":
        return "fn " + x.a["n"]
    return x.k


class Cell:
    __slots__ = ("v", "deps", "succ", "tag")

    def __init__(self, tag=None):
        self.v = set()
        self.deps = set()
        self.succ = None
        self.tag = tag


class Unit:
    __slots__ = ("f", "bb", "queued", "n")

    def __init__(self, f, bb):
        self.f = f
        self.bb = bb
        self.queued = False
        self.n = 0


# ---------------------------------------------------------------- bodies (SSA-like renaming)


class Body:
    """A function body with locals renamed to versions. `start` = None: normal entry; otherwise execution
    starts at the terminator of block `start`, with every local defined on entry (continuation body)."""

    def __init__(self, inst, start=None):
        self.inst = inst
        self.start = start
        blocks = inst["blocks"]
        self.nblocks = len(blocks)
        nl = len(inst["locals"])
        argc = inst["argc"]
        taken = set()

        def scan_ref(rv):
            if rv[0] == "ref" and rv[2] and not rv[1][1]:
                taken.add(rv[1][0])
            elif rv[0] == "other":
                for x in rv[1:]:
                    if isinstance(x, list) and len(x) == 3 and isinstance(x[0], int) and x[1] == []:
                        taken.add(x[0])

        succs = {}
        for i, b in enumerate(blocks):
            if b is None:
                continue
            for st in b[0]:
                scan_ref(st[1])
            succs[i] = tsuccs(b[1])
        self.taken = taken
        entry = 0 if start is None else -1
        # reachable blocks
        order = []
        seen = set()
        if start is not None:
            succs[-1] = list(succs[start])

        def dfs(s):
            stack = [(s, iter(succs.get(s, ())))]
            seen.add(s)
            while stack:
                n, it = stack[-1]
                for m in it:
                    if m not in seen and blocks[m] is not None:
                        seen.add(m)
                        stack.append((m, iter(succs[m])))
                        break
                else:
                    order.append(n)
                    stack.pop()

        dfs(entry)
        order.reverse()
        self.order = order
        preds = {b: [] for b in order}
        for b in order:
            for s in set(succs.get(b, ())):
                if s in preds:
                    preds[s].append(b)
        # definitions
        ndefs = [0] * nl
        if start is None:
            for l in range(1, argc + 1):
                ndefs[l] += 1
        else:
            for l in range(nl):
                ndefs[l] += 1

        def bl(b):
            return blocks[start if b == -1 else b]

        used = set()
        for b in order:
            blk = bl(b)
            if b != -1:
                for st in blk[0]:
                    if not st[0][1]:
                        ndefs[st[0][0]] += 1
            t = blk[1]
            if t[0] == "call" and not t[3][1]:
                ndefs[t[3][0]] += 1
        multi = [l for l in range(nl) if ndefs[l] > 1 and l not in taken]
        mset = set(multi)
        self.multi = mset
        nv = [nl]
        self.entryver = {}  # local -> version bound at entry
        self.phis = {}  # block -> {local: ver}
        self.outv = {}  # block -> {multi local: ver} at the terminator (before a call's own definition)
        self.edgev = {}  # (block) -> versions after the call's definition
        self.blocks = {}

        def new():
            nv[0] += 1
            return nv[0] - 1

        ent = {}
        if start is None:
            for l in range(1, argc + 1):
                ent[l] = new() if l in mset else l
        else:
            for l in range(nl):
                if l not in taken:
                    ent[l] = new() if l in mset else l
        self.entryver = ent
        joins = {b for b in order if len(preds[b]) >= 2 or (b == 0 and start is None and preds[b])}
        for b in joins:
            self.phis[b] = {l: new() for l in multi}
        end = {}
        for b in order:
            if b in self.phis:
                cur = dict(self.phis[b])
            elif b == entry:
                cur = {l: ent[l] for l in multi if l in ent}
            else:
                cur = dict(end[preds[b][0]])
            blk = bl(b)
            nst = []

            def rp(p):
                l = p[0]
                pr = p[1]
                for e in pr:
                    if e[0] == "i" and e[1] in mset:
                        pr = [["i", cur.get(x[1], x[1])] if x[0] == "i" and x[1] in mset else x for x in pr]
                        break
                if l in mset:
                    l = cur.get(l, -1)
                elif l in taken:
                    l = -2 - l
                return (l, pr, p[2])

            def ro(o):
                if o[0] == "k":
                    return o
                return (o[0], rp(o[1]))

            def rrv(rv):
                k = rv[0]
                if k == "use":
                    return ("use", ro(rv[1]))
                if k == "ref":
                    return ("ref", rp(rv[1]), rv[2])
                if k == "agg":
                    return ("agg", rv[1], [ro(x) for x in rv[2]])
                if k in ("bin", "cbin"):
                    return (k, rv[1], ro(rv[2]), ro(rv[3]))
                if k == "un":
                    return (k, rv[1], ro(rv[2]))
                if k == "cast":
                    return (k, rv[1], ro(rv[2]), rv[3], rv[4])
                if k in ("disc", "len"):
                    return (k, rp(rv[1]))
                if k == "repeat":
                    return (k, ro(rv[1])) + tuple(rv[2:])
                return ("other", [rp(x) if isinstance(x, list) and len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], list) else x for x in rv[1:]])

            if b != -1:
                for st in blk[0]:
                    rv = rrv(st[1])
                    d = st[0]
                    if not d[1] and d[0] in mset:
                        v = new()
                        cur[d[0]] = v
                        dest = (v, d[1], d[2])
                    else:
                        dest = rp(d)
                    nst.append((dest, rv, st[2]))
            self.outv[b] = dict(cur)
            t = blk[1]
            if t[0] == "switch":
                nt = ("switch", ro(t[1]), t[2], t[3])
            elif t[0] == "call":
                args = [ro(x) for x in t[2]]
                cal = t[1]
                if "op" in cal:
                    cal = dict(cal)
                    cal["op"] = ro(cal["op"])
                d = t[3]
                if not d[1] and d[0] in mset:
                    v = new()
                    cur[d[0]] = v
                    dest = (v, d[1], d[2])
                else:
                    dest = rp(d)
                nt = ("call", cal, args, dest, t[4])
            elif t[0] == "assert":
                nt = ("assert", ro(t[1]), t[2], t[3], t[4])
            elif t[0] == "drop":
                nt = ("goto", t[1])
            elif t[0] == "ret":
                nt = ("ret", 0 if 0 not in mset else cur.get(0, -1)) if 0 not in taken else ("ret", -2)
            else:
                nt = tuple(t)
            end[b] = cur
            self.blocks[b] = (nst, nt, blk[2])
        # phi copies per edge
        self.phiedges = {}
        for b, ph in self.phis.items():
            for p in preds[b]:
                self.phiedges[(p, b)] = [(end[p][l], v) for l, v in ph.items() if l in end[p]]
        self.entry = entry
        self.nver = nv[0]
        self.preds = preds


def tsuccs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[1]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]] if isinstance(t[4], int) else [t[3]]
    return []


def stable(tag):
    """A call tag without atom numbers, which differ between runs."""
    if isinstance(tag, tuple):
        return tuple(stable(t) for t in tag if not isinstance(t, int))
    return tag


class Frame:
    __slots__ = ("eng", "inst", "m", "body", "parent", "key", "cells", "reached", "edges", "ret", "returned", "retdeps", "units", "kids",
                 "writes", "calls", "switches", "ext", "base", "preset", "force", "skips", "id", "depth", "forced_variants", "retblocks")

    def __init__(self, eng, m, body, parent, key):
        self.eng = eng
        self.m = m
        self.inst = body.inst
        self.body = body
        self.parent = parent
        self.key = key
        self.cells = {}
        self.reached = set()
        self.edges = set()
        self.ret = Cell()
        self.returned = False
        self.retdeps = set()
        self.units = {}
        self.kids = {}
        self.writes = {}
        self.calls = {}
        self.switches = {}
        self.ext = {}
        self.base = None
        self.preset = None
        self.force = None
        self.skips = {}
        self.retblocks = set()
        self.depth = parent.depth + 1 if parent else 0
        eng.frames.append(self)
        self.id = len(eng.frames)

    @property
    def n(self):
        return self.inst["n"]

    def cell(self, v):
        if v < -1 and self.base is not None:
            return self.base.cell(v)
        c = self.cells.get(v)
        if c is None:
            c = self.cells[v] = Cell()
        return c

    def unit(self, bb):
        u = self.units.get(bb)
        if u is None:
            u = self.units[bb] = Unit(self, bb)
        return u

    def path(self):
        """Call path as a tuple of (function, block) pairs, stable between scenario runs over the same facts."""
        out = []
        f = self
        while f is not None:
            k = f.key
            out.append((f.inst["n"], (k[0], stable(k[1])) if isinstance(k, tuple) else k))
            f = f.parent
        return tuple(reversed(out))

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent

    def loc(self, bb):
        b = self.inst["blocks"][bb if bb >= 0 else self.body.start]
        return "%s:%s" % (b[2][0], b[2][1])

    def __repr__(self):
        return "<frame %s>" % self.inst["n"]


class Call:
    """What a model sees of one (possibly nested) call."""
    __slots__ = ("eng", "f", "bb", "tag", "callee", "n", "args", "dty", "u", "multi")

    def __init__(self, eng, f, bb, tag, callee, args, dty, u):
        self.eng = eng
        self.f = f
        self.bb = bb
        self.tag = tag
        self.callee = callee
        self.n = callee["n"]
        self.args = args
        self.dty = dty
        self.u = u

    # --- helpers
    def read(self, cell):
        cell.deps.add(self.u)
        return cell.v

    def obj(self, kind, c=None, tag=""):
        return self.eng.obj((self.f.id, self.bb, self.tag, kind, tag), kind, c)

    def put(self, o, key, vals):
        self.eng.join(self.eng.ocell(o, key), vals)

    def get(self, o, key):
        return self.read(self.eng.ocell(o, key))

    def node(self, name=None, args=None, tag=""):
        return self.eng.node((self.f.id, self.bb, self.tag, "n", tag), name or self.n, self.args if args is None else args, self.f, self.bb, self.callee)

    def deref(self, s):
        """Follow &mut cells so that only non-reference atoms remain."""
        if not any(x.k == "R" for x in s):
            return s
        out = set()
        seen = set()
        todo = list(s)
        while todo:
            x = todo.pop()
            if x.k == "R":
                if x in seen:
                    continue
                seen.add(x)
                todo.extend(self.read(x.cell))
            else:
                out.add(x)
        return out

    def a(self, i):
        return self.deref(self.args[i])

    def some(self, payload, tag=""):
        if not payload:
            return set()
        o = self.obj("adt", (OPTION, 1), "some" + tag)
        self.put(o, 0, payload)
        return {o}

    def ok(self, payload, tag=""):
        if not payload:
            return set()
        o = self.obj("adt", (RESULT, 0), "ok" + tag)
        self.put(o, 0, payload)
        return {o}

    def err(self, payload, tag=""):
        if not payload:
            return set()
        o = self.obj("adt", (RESULT, 1), "err" + tag)
        self.put(o, 0, payload)
        return {o}

    def none(self):
        return self.eng.NONE

    @property
    def resumed(self):
        """Is this the call a continuation (continue_from) is inside of?"""
        return self.bb == -1 and bool(self.f.preset)

    def option(self, s):
        """-> (payload, may_none)"""
        pay = set()
        none = False
        for x in self.deref(s):
            if x.k == "U":
                none = True
            elif x.k == "O" and x.b == "adt":
                if x.c[1] == 1:
                    pay |= self.get(x, 0)
                else:
                    none = True
            else:
                vs = self.eng.disc_of(x, OPTION)
                if vs is None or "None" in vs:
                    none = True
                if vs is None or "Some" in vs:
                    pay |= self.eng.proj_opaque(x, "Some", self.u)
        return pay, none

    def result(self, s):
        """-> (ok payload, err payload)"""
        ok = set()
        er = set()
        for x in self.deref(s):
            if x.k == "O" and x.b == "adt":
                (ok if x.c[1] == 0 else er).update(self.get(x, 0))
            elif x.k == "U":
                pass
            else:
                vs = self.eng.disc_of(x, RESULT)
                if vs is None or "Ok" in vs:
                    ok |= self.eng.proj_opaque(x, "Ok", self.u)
                if vs is None or "Err" in vs:
                    er |= self.eng.proj_opaque(x, "Err", self.u)
        return ok, er

    def bools(self, s):
        """-> (may_true, may_false)"""
        t = f = False
        for x in self.deref(s):
            if x.k == "K" and x.a == "bool":
                if x.b:
                    t = True
                else:
                    f = True
            else:
                t = f = True
        return t, f

    def call(self, fset, args, tag, must=False):
        """Call a function value. Returns the set of returned values (empty: none returned so far)."""
        return self.eng.call_value(self, fset, args, tag, must)

    def tbool(self, t, f):
        e = self.eng
        s = set()
        if t:
            s.add(e.TRUE)
        if f:
            s.add(e.FALSE)
        return s

    def tyname(self, ty=None):
        t = self.eng.T[self.dty if ty is None else ty]
        return t.get("n", t["k"])

    def elems(self, s, tag):
        out = set()
        for x in self.deref(s):
            out |= self.eng.elems(self, x, tag)
        return out


class Engine:
    def __init__(self, facts, hook=None, disc=None, boundary=None, rec=1, budget=4000000):
        self.facts = facts
        self.T = facts["types"]
        self.I = facts["insts"]
        self.adts = facts["adts"]
        self.hook = hook
        self.disc_hook = disc
        self.post = None
        self.mark = None
        self.boundary = boundary or (lambda n, c: False)
        self.rec = rec
        self.maxdepth = 14
        self.budget = budget
        self.tab = {}
        self.ninfo = {}
        self.frames = []
        self.queue = []
        self.lowq = []
        self.lowset = set()
        self.settled = set()
        self.bodies = facts.setdefault("_bodies", {})
        self.TRUE = self.const("bool", True)
        self.FALSE = self.const("bool", False)
        self.UNIT = self.const("unit", ())
        self.NONE = self.unitv(OPTION, 0)
        self.steps = 0
        self.panics = {}
        self.unmodelled = {}
        self.roots = []
        from models import MODELS
        self.models = MODELS

    # ------------------------------------------------------------ atoms
    def _mk(self, key, k, a=None, b=None, c=None):
        x = self.tab.get(key)
        if x is None:
            x = Atom(k, a, b, c)
            x.eng = self
            x.id = len(self.tab)
            self.tab[key] = x
        return x

    def const(self, ty, v):
        return self._mk(("K", ty, v), "K", ty, v)

    def sym(self, name, ty=None):
        x = self._mk(("S", name), "S", name)
        if ty is not None:
            x.ty = ty
        return x

    def unitv(self, name, vi):
        return self._mk(("U", name, vi), "U", name, vi)

    def proj(self, base, key, ty=None):
        # recursive structures (clusters of clusters, ...): a.k.x.k is a.k
        if base.k == "P":
            if base.b == key:
                return base
            if key not in WRAP and not (isinstance(key, str) and key[:1] in "[@"):
                b = base.a
                while b.k == "P":
                    if b.b == key:
                        return b
                    b = b.a
        if base.depth > self.maxdepth:
            # widen: collapse deep paths
            b = base
            while b.k == "P":
                b = b.a
            x = self._mk(("P", b, "..."), "P", b, "...")
            x.depth = 1
            return x
        x = self.tab.get(("P", base, key))
        if x is None:
            x = self._mk(("P", base, key), "P", base, key)
            x.depth = base.depth + 1
        if ty is not None and x.ty is None:
            x.ty = ty
        return x

    def proj_opaque(self, x, key, u=None, ty=None):
        """Reading part `key` of an opaque atom: the projection and whatever was stored there."""
        p = self.proj(x, key, ty)
        if p.cell is None:
            p.cell = Cell()
        if u is not None:
            p.cell.deps.add(u)
        return {p} | p.cell.v

    def obj(self, key, kind, c=None):
        x = self._mk(("O",) + key + (c,), "O", key, kind, c)
        if x.cells is None:
            x.cells = {}
        return x

    def ocell(self, o, key):
        c = o.cells.get(key)
        if c is None:
            c = o.cells[key] = Cell()
        return c

    def ref(self, cell):
        x = self.tab.get(("R", id(cell)))
        if x is None:
            x = self._mk(("R", id(cell)), "R")
            x.cell = cell
        return x

    def node(self, key, name, args, f=None, bb=None, callee=None):
        x = self._mk(("N",) + key, "N", key, name)
        self.ninfo[x] = (name, [set(a) for a in args], f, bb, callee)
        return x

    def fnitem(self, callee):
        key = ("F", callee.get("inst") or callee.get("res") or callee["n"], callee["n"], tuple(callee.get("a", ())))
        return self._mk(key, "F", callee)

    # YAML documents: kind, path, content
    def yaml(self, kind, path, content=None):
        x = self._mk(("Y", path), "Y", kind, path, content)
        x.a, x.c = kind, content
        return x

    def doc(self, spec, path=""):
        """Build an abstract YAML value. dict -> Hash with exactly these keys; list -> Array; str starting with
        '$' -> opaque value of kind int/str/bool/any; other str -> string constant."""
        if isinstance(spec, dict):
            ks = []
            for k, v in spec.items():
                ks.append((self.yaml("str", path + "/" + k + "~key", k), self.doc(v, path + "/" + k)))
            return self.yaml("hash", path, tuple(ks))
        if isinstance(spec, list):
            return self.yaml("arr", path, tuple(self.doc(v, "%s/%d" % (path, i)) for i, v in enumerate(spec)))
        if isinstance(spec, str):
            if spec.startswith("$"):
                return self.yaml(spec[1:], path)
            return self.yaml("str", path, spec)
        if isinstance(spec, (bool, int)):
            return self.yaml(type(spec).__name__, path, spec)
        raise ValueError(spec)

    # ------------------------------------------------------------ cells
    def join(self, cell, vals):
        new = vals - cell.v if isinstance(vals, (set, frozenset)) else set(vals) - cell.v
        if not new:
            return False
        if len(cell.v) > 3000:
            raise RuntimeError("abstract value too large")
        cell.v |= new
        for u in cell.deps:
            if not u.queued:
                u.queued = True
                self.queue.append(u)
        if cell.succ:
            for s in cell.succ:
                self.join(s, new)
        return True

    def copy_edge(self, src, dst):
        if src is dst:
            return
        if src.succ is None:
            src.succ = set()
        if dst not in src.succ:
            src.succ.add(dst)
            if src.v:
                self.join(dst, set(src.v))

    def is_settled(self, u):
        """May the unit already conclude that something is empty? Otherwise it is retried once all else is done."""
        if u in self.settled:
            return True
        if u not in self.lowset:
            self.lowset.add(u)
            self.lowq.append(u)
        return False

    def enqueue(self, u):
        if not u.queued:
            u.queued = True
            self.queue.append(u)

    # ------------------------------------------------------------ frames
    def body(self, m, start=None):
        b = self.bodies.get((m, start))
        if b is None:
            b = self.bodies[(m, start)] = Body(self.I[m], start)
        return b

    def frame(self, parent, key, m):
        k = (key, m)
        fr = parent.kids.get(k)
        if fr is None:
            if parent.preset and k in parent.preset:
                fr = parent.preset[k]
            else:
                fr = Frame(self, m, self.body(m), parent, key)
            parent.kids[k] = fr
        return fr

    def start_frame(self, fr):
        if not fr.reached:
            fr.reached.add(fr.body.entry)
            self.enqueue(fr.unit(fr.body.entry))

    def invoke(self, c, m, args, key):
        """Call of a local body."""
        parent = c.f
        cnt = 0
        rec = None
        for fr in parent.chain():
            if fr.m == m:
                cnt += 1
                if rec is None:
                    rec = fr
        if cnt >= self.rec and rec is not None:
            fr = rec
            parent.kids[(key, m)] = fr
        else:
            fr = self.frame(parent, key, m)
        if fr.body.start is None:
            ent = fr.body.entryver
            for i, a in enumerate(args):
                l = i + 1
                v = ent.get(l)
                if v is None:
                    continue
                self.join(fr.cell(v if l not in fr.body.taken else -2 - l), a)
            self.start_frame(fr)
        fr.retdeps.add(c.u)
        fr.ret.deps.add(c.u)
        if not fr.returned:
            return set()
        return set(fr.ret.v) or {self.UNIT}

    def call_value(self, c, fset, args, tag, must=False):
        out = set()
        for x in c.deref(fset):
            if x.k == "O" and x.b == "closure":
                key = (c.bb, c.tag + (tag, x.id))
                if not self.boundary(self.I[x.c]["n"], c) or True:
                    out |= self.invoke(c, x.c, [{x}] + list(args), key)
            elif x.k == "F":
                sub = Call(self, c.f, c.bb, c.tag + (tag, x.id), x.a, list(args), None, c.u)
                r = self.do_call(sub)
                if r:
                    out |= r
            else:
                out.add(c.node("<callback>", [{x}] + [set(a) for a in args], tag=str(tag)))
        return out

    def do_call(self, c):
        """Evaluate call c (direct callee). Returns the set of result atoms, or None when it never returns."""
        cal = c.callee
        n = cal["n"]
        if "inst" not in cal:
            c.f.ext[(c.bb, c.tag)] = (cal, c.args)
        if self.hook is not None:
            r = self.hook(c)
            if r is not None:
                return r
        m = cal.get("inst")
        if m is not None and m in self.I and not self.boundary(self.I[m]["n"], c):
            args = c.args
            if cal.get("clo"):
                # (closure, (args...))
                un = []
                argc = self.I[m]["argc"] - 1
                tup = c.deref(args[1]) if len(args) > 1 else set()
                for i in range(argc):
                    s = set()
                    for t in tup:
                        if t.k == "O":
                            s |= c.get(t, i)
                        elif t.k != "K":
                            s |= self.proj_opaque(t, str(i), c.u)
                    un.append(s)
                args = [args[0]] + un
            return self.invoke(c, m, args, (c.bb, c.tag))
        mod = self.models.get(n)
        if mod is None and cal.get("res"):
            mod = self.models.get(cal["res"])
        if mod is None:
            mod = self.models.get("*" + n.rsplit("::", 1)[-1]) if ("svd_rs" in n) else None
        if mod is not None:
            r = mod(c)
            if r is not None:
                return r
        from models import ctor
        r = ctor(c)
        if r is not None:
            return r
        return self.opaque(c)

    def opaque(self, c):
        self.unmodelled[c.n] = self.unmodelled.get(c.n, 0) + 1
        nd = c.node()
        out = {nd}
        for i, a in enumerate(c.args):
            for x in a:
                if x.k == "O" and x.b == "closure":
                    argc = self.I[x.c]["argc"]
                    r = self.invoke(c, x.c, [{x}] + [{self.proj(nd, "cb%d.%d" % (i, j))} for j in range(argc - 1)], (c.bb, c.tag + ("cb", i)))
                    self.ninfo[nd][1].append(set(r))
                elif x.k == "F":
                    self.call_value(c, {x}, [{self.proj(nd, "cb%d.0" % i)}], ("cbf", i))
                elif x.k == "R":
                    self.join(x.cell, {self.proj(nd, "mut%d" % i)})
                elif x.k == "O" and x.b in ("vec", "map") and self.T_is_mut(c, i):
                    c.put(x, "elem" if x.b == "vec" else "val", {self.proj(nd, "mut%d" % i)})
        return out

    def T_is_mut(self, c, i):
        return False

    # ------------------------------------------------------------ discriminants
    def disc_of(self, x, adt):
        """Set of possible variant names of opaque atom x, or None when any."""
        if x.k == "Y" and adt == YAML:
            kind = x.a
            mp = {"hash": "Hash", "arr": "Array", "str": "String", "int": "Integer", "bool": "Boolean", "real": "Real", "null": "Null"}
            if kind in mp:
                return {mp[kind]}
            if kind.startswith("not_"):
                return set(YVAR) - {mp[kind[4:]]}
            return None
        if self.disc_hook is not None:
            return self.disc_hook(x, adt)
        return None

    def variant_index(self, adt, name):
        for i, v in enumerate(self.adts[adt]["v"]):
            if v["n"] == name:
                return i
        raise KeyError(name)

    # ------------------------------------------------------------ elements of collections / iterators
    def elems(self, c, x, tag):
        out = self.elems_of(c, x, tag)
        return out if self.mark is None else self.mark(c, out)

    def elems_of(self, c, x, tag):
        from models import ITERS
        if x.k == "O":
            if x.b == "iter":
                return ITERS[x.c](c, x, tag)
            if x.b == "vec":
                return set(c.get(x, "elem"))
            if x.b in ("array", "seq"):
                s = set()
                for cell in list(x.cells.values()):
                    s |= c.read(cell)
                return s
            if x.b == "map":
                k = c.get(x, "key")
                v = c.get(x, "val")
                if not k and not v:
                    return set()
                o = c.obj("tuple", None, "mapent%d" % x.id)
                c.put(o, 0, k)
                c.put(o, 1, v)
                return {o}
            if x.b == "adt":
                name, vi = x.c
                if name == OPTION:
                    return set(c.get(x, 0)) if vi == 1 else set()
                if name == RESULT:
                    return set(c.get(x, 0)) if vi == 0 else set()
                if name.startswith("std::ops::Range") or name.startswith("core::ops::Range"):
                    return {c.node("range", [set(c.read(cc)) for cc in x.cells.values()], tag="rng%d" % x.id)}
                ty = x.ty
                nx = self.T[ty].get("next") if ty is not None else None
                if nx:
                    r = self.invoke(c, nx, [{x}], (c.bb, c.tag + ("next", x.id, tag)))
                    p, _ = c.option(r)
                    return p
                if name == "svd_rs::MaybeArray":
                    return set()
            return self.proj_opaque(x, "elem", c.u)
        if x.k == "Y":
            if x.a == "hash":
                s = set()
                for (k, v) in x.c:
                    o = self.obj((0, x.b, k.b, "yent"), "tuple", None)
                    self.join(self.ocell(o, 0), {k})
                    self.join(self.ocell(o, 1), {v})
                    s.add(o)
                return s
            if x.a == "arr":
                return set(x.c)
            return self.proj_opaque(x, "elem", c.u)
        if x.k in ("K", "U"):
            return set()
        return self.proj_opaque(x, "elem", c.u)

    # ------------------------------------------------------------ constants
    def kval(self, k, ty, path=()):
        t = k["c"]
        if t == "ref":
            return self.kval(k["v"], ty, path)
        if t in ("str", "bool", "int", "char"):
            return {self.const(t, k["v"])}
        if t == "tuple":
            if not k["v"]:
                return {self.UNIT}
            o = self.obj(("kt", repr(k)), "tuple", None)
            for i, v in enumerate(k["v"]):
                self.join(self.ocell(o, i), self.kval(v, None))
            return {o}
        if t == "adt":
            if not k["v"]:
                return {self.unitv(k["n"], k["vi"])}
            o = self.obj(("ka", repr(k)), "adt", (k["n"], k["vi"]))
            for i, v in enumerate(k["v"]):
                self.join(self.ocell(o, i), self.kval(v, None))
            return {o}
        if t == "seq":
            o = self.obj(("ks", repr(k)), "seq", None)
            for i, v in enumerate(k["v"]):
                self.join(self.ocell(o, i), self.kval(v, None))
            return {o}
        if t == "bytes":
            return {self.const("bytes", tuple(k["v"]))}
        if t == "fn":
            return {self.fnitem(k["v"])}
        if t == "closure":
            return {self.obj(("kc", k["v"]), "closure", k["v"])}
        if t == "zst":
            tt = self.T[ty] if ty is not None else None
            if tt is not None:
                if tt["k"] == "closure":
                    return {self.obj(("kc", tt["inst"]), "closure", tt["inst"])}
                if tt["k"] == "fndef":
                    return {self.fnitem(tt["c"])}
                if tt["k"] == "adt":
                    return {self.unitv(tt["n"], 0)}
            return {self.UNIT}
        return {self._mk(("KU", repr(k), ty), "S", "const:" + str(ty))}

    # ------------------------------------------------------------ evaluation of places
    def operand(self, f, o, u):
        if o[0] == "k":
            return self.kval(o[1], o[2])
        return self.place(f, o[1], u)

    def local(self, f, v, u):
        c = f.cell(v)
        c.deps.add(u)
        return c.v

    def place(self, f, p, u):
        cur = self.local(f, p[0], u)
        pr = p[1]
        if not pr:
            return cur
        return self.project(f, cur, pr, u, p[2])

    def project(self, f, cur, pr, u, ty):
        i = 0
        n = len(pr)
        while i < n:
            e = pr[i]
            k = e[0]
            out = set()
            if k == "*":
                for x in cur:
                    if x.k == "R":
                        x.cell.deps.add(u)
                        out |= x.cell.v
                    else:
                        out.add(x)
            elif k == "v":
                # downcast followed by a field
                nm, vi = e[1], e[2]
                if i + 1 < n and pr[i + 1][0] == "f":
                    fe = pr[i + 1]
                    i += 1
                    for x in cur:
                        if x.k == "O":
                            if x.b == "adt" and x.c[1] == vi:
                                cc = self.ocell(x, fe[3])
                                cc.deps.add(u)
                                out |= cc.v
                            elif x.b != "adt":
                                out |= self.proj_opaque(x, (nm, fe[1]), u)
                        elif x.k in ("K", "U", "F", "R"):
                            pass
                        elif x.k == "Y":
                            out |= self.ydown(x, nm, u)
                        else:
                            vs = self.disc_of(x, fe[2])
                            if vs is not None and nm not in vs:
                                continue
                            if nm in ("Some", "Ok", "Err", "Continue", "Break"):
                                out |= self.proj_opaque(x, nm, u)
                            elif (fe[2] or "").startswith("svd_rs::MaybeArray") and fe[3] == 0:
                                out.add(x)
                            else:
                                out |= self.proj_opaque(x, (nm, fe[1]), u)
                else:
                    for x in cur:
                        if x.k == "O" and x.b == "adt" and x.c[1] != vi:
                            continue
                        if x.k == "U" and x.b != vi:
                            continue
                        out.add(x)
            elif k == "f":
                idx = e[3]
                nm = e[1]
                for x in cur:
                    if x.k == "O":
                        if x.b == "box":
                            out.add(x)
                        elif x.b in ("iter", "vec", "map"):
                            out |= self.proj_opaque(x, nm, u)
                        elif x.b == "builder":
                            cc = self.ocell(x, nm)
                            cc.deps.add(u)
                            out |= cc.v
                        else:
                            cc = self.ocell(x, idx)
                            cc.deps.add(u)
                            out |= cc.v
                    elif x.k in ("K", "U", "F", "R"):
                        if x.k == "U" and x.a.endswith("::Box"):
                            continue
                    else:
                        out |= self.proj_opaque(x, str(nm), u)
            elif k in ("i", "ci", "ss"):
                for x in cur:
                    if x.k == "O":
                        if x.b == "vec":
                            if k == "ss":
                                out.add(x)
                            else:
                                cc = self.ocell(x, "elem")
                                cc.deps.add(u)
                                out |= cc.v
                        elif x.b in ("array", "seq"):
                            if k == "ss":
                                out.add(x)
                            elif k == "ci" and not e[2] and e[1] in x.cells:
                                cc = x.cells[e[1]]
                                cc.deps.add(u)
                                out |= cc.v
                            else:
                                for cc in x.cells.values():
                                    cc.deps.add(u)
                                    out |= cc.v
                        else:
                            out |= self.proj_opaque(x, "elem", u)
                    elif x.k == "Y":
                        if x.a == "arr":
                            i1 = None
                            if k == "i":
                                iv = self.local(f, e[1] if e[1] not in f.body.taken else -2 - e[1], u)
                                i1 = next(iter(iv)) if len(iv) == 1 else None
                            if i1 is not None and i1.k == "K" and i1.a == "int" and 0 <= i1.b < len(x.c):
                                out.add(x.c[i1.b])
                            else:
                                out |= set(x.c)
                        else:
                            out |= self.proj_opaque(x, "elem", u)
                    elif x.k == "K" and x.a in ("str", "bytes"):
                        out |= self.kindex(f, x, e, u)
                    elif x.k in ("K", "U", "F", "R"):
                        pass
                    elif k == "ss":
                        out.add(x)
                    else:
                        key = "elem"
                        if k == "ci":
                            key = "[%s%d]" % ("-" if e[2] else "", e[1])
                        elif k == "i":
                            iv = self.local(f, e[1] if e[1] not in f.body.taken else -2 - e[1], u)
                            if len(iv) == 1:
                                y = next(iter(iv))
                                if y.k == "K":
                                    key = "[%s]" % y.b
                        out |= self.proj_opaque(x, key, u)
            else:
                out = set(cur)
            cur = out
            i += 1
        if ty is not None:
            for x in cur:
                if x.ty is None and x.k == "P":
                    x.ty = ty
        return cur

    def kindex(self, f, x, e, u):
        """Byte of a constant string."""
        bs = x.b.encode() if x.a == "str" else bytes(x.b)
        if e[0] == "i":
            iv = self.local(f, e[1] if e[1] not in f.body.taken else -2 - e[1], u)
            out = set()
            for y in iv:
                if y.k == "K" and y.a == "int":
                    if 0 <= y.b < len(bs):
                        out.add(self.const("int", bs[y.b]))
                else:
                    out.add(self.node(("kidx", x.id), "byte_of", [{x}]))
            return out
        if e[0] == "ci" and not e[2] and e[1] < len(bs):
            return {self.const("int", bs[e[1]])}
        return {self.node(("kidx", x.id), "byte_of", [{x}])}

    def stuck(self):
        """Reached calls that never produced a value or were never entered because an argument has no value."""
        for f in self.frames:
            for bb in f.reached:
                t = f.body.blocks[bb][1]
                if t[0] == "call" and bb in f.calls and t[4] is not None and (bb, t[4]) not in f.edges:
                    yield f, bb, t[1]["n"], [show(a) for a in f.calls[bb][1]]

    def ydown(self, x, nm, u):
        vs = self.disc_of(x, YAML)
        if vs is not None and nm not in vs:
            return set()
        if nm in ("Hash", "Array"):
            if x.a in ("hash", "arr"):
                return {x}
            return self.proj_opaque(x, nm, u)
        if nm == "String" and x.a == "str" and x.c is not None:
            return {self.const("str", x.c)}
        if x.c is not None and (nm == "Integer" and x.a == "int" or nm == "Boolean" and x.a == "bool"):
            return {self.const(x.a, x.c)}
        return self.proj_opaque(x, nm, u)

    def assign(self, f, bb, idx, p, vals, u):
        if not vals:
            return
        pr = p[1]
        if not pr:
            self.join(f.cell(p[0]), vals)
            return
        base = self.local(f, p[0], u)
        e = pr[-1]
        pre = pr[:-1]
        if pre and pre[-1][0] == "v":
            vv = pre[-1]
            pre = pre[:-1]
        else:
            vv = None
        if pre:
            base = self.project(f, base, pre, u, None)
        if e[0] == "*":
            for x in list(base):
                if x.k == "R":
                    self.join(x.cell, vals)
                elif x.k in ("P", "S", "N", "Y"):
                    if x.cell is None:
                        x.cell = Cell()
                    self.join(x.cell, vals)
            f.writes[(bb, idx)] = (set(base), None, None, vals, p[2])
        elif e[0] == "f":
            for x in list(base):
                if x.k == "O":
                    self.join(self.ocell(x, e[1] if x.b == "builder" else 0 if x.b == "box" else e[3]), vals)
                elif x.k in ("P", "S", "N", "Y"):
                    key = str(e[1]) if vv is None else ((vv[1], e[1]) if vv[1] not in ("Some", "Ok", "Err") else vv[1])
                    pp = self.proj(x, key)
                    if pp.cell is None:
                        pp.cell = Cell()
                    self.join(pp.cell, vals)
            f.writes[(bb, idx)] = (set(base), e[2], e[1], vals, p[2])
        elif e[0] in ("i", "ci"):
            for x in list(base):
                if x.k == "O":
                    if x.b == "vec":
                        self.join(self.ocell(x, "elem"), vals)
                    elif x.b == "array":
                        for cc in x.cells.values():
                            self.join(cc, vals)
                elif x.k in ("P", "S", "N", "Y"):
                    pp = self.proj(x, "elem")
                    if pp.cell is None:
                        pp.cell = Cell()
                    self.join(pp.cell, vals)
            f.writes[(bb, idx)] = (set(base), None, "[]", vals, p[2])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, f, bb, idx, rv, u, dty):
        k = rv[0]
        if k == "use":
            return self.operand(f, rv[1], u)
        if k == "ref":
            p = rv[1]
            if not rv[2]:
                return self.place(f, p, u)
            if not p[1]:
                if p[0] <= -2:
                    return {self.ref(f.cell(p[0]))}
                return self.place(f, p, u)
            return self.lref(f, p, u)
        if k == "agg":
            kind = rv[1]
            ops = [self.operand(f, o, u) for o in rv[2]]
            if any(not s for s in ops):
                return EMPTY
            if kind[0] == "adt":
                if not ops:
                    return {self.unitv(kind[1], kind[2])}
                o = self.obj((f.id, bb, idx), "adt", (kind[1], kind[2]))
            elif kind[0] == "closure":
                o = self.obj((f.id, bb, idx), "closure", kind[1])
            elif kind[0] == "tuple":
                if not ops:
                    return {self.UNIT}
                o = self.obj((f.id, bb, idx), "tuple", None)
            else:
                o = self.obj((f.id, bb, idx), "array", None)
            if o.ty is None:
                o.ty = dty
            for i, s in enumerate(ops):
                self.join(self.ocell(o, i), s)
            return {o}
        if k in ("bin", "cbin"):
            r = self.binop(f, bb, idx, rv[1], self.operand(f, rv[2], u), self.operand(f, rv[3], u))
            if k == "cbin" and r:
                o = self.obj((f.id, bb, idx), "tuple", None)
                self.join(self.ocell(o, 0), r)
                self.join(self.ocell(o, 1), {self.node((f.id, bb, idx, "ovf"), "overflow", [r], f, bb)})
                return {o}
            return r
        if k == "un":
            s = self.operand(f, rv[2], u)
            if not s:
                return EMPTY
            out = set()
            op = set()
            for x in s:
                if x.k == "K" and x.a == "bool" and rv[1] == "Not":
                    out.add(self.FALSE if x.b else self.TRUE)
                elif x.k == "K" and x.a == "int" and rv[1] == "Neg":
                    out.add(self.const("int", -x.b))
                else:
                    op.add(x)
            if op:
                out.add(self.node((f.id, bb, idx), "un:" + rv[1], [op], f, bb))
            return out
        if k == "cast":
            s = self.operand(f, rv[2], u)
            if not s:
                return EMPTY
            if rv[1] in ("IntToInt", "FloatToInt", "IntToFloat"):
                out = set()
                op = set()
                for x in s:
                    if x.k == "K" and x.a in ("int", "bool", "char"):
                        out.add(x)
                    else:
                        op.add(x)
                if op:
                    out.add(self.node((f.id, bb, idx), "cast:%s->%s" % (self.T[rv[4]]["t"], self.T[rv[3]]["t"]), [op], f, bb))
                return out
            return s
        if k == "disc":
            s = self.place(f, rv[1], u)
            out = set()
            ty = rv[1][2]
            adt = self.T[ty].get("n") if ty is not None else None
            for x in s:
                if x.k == "O" and x.b == "adt":
                    out.add(self.const("int", self.adts[x.c[0]]["v"][x.c[1]]["d"] if x.c[0] in self.adts else x.c[1]))
                elif x.k == "U":
                    out.add(self.const("int", self.adts[x.a]["v"][x.b]["d"] if x.a in self.adts else x.b))
                elif x.k == "R":
                    pass
                else:
                    vs = self.disc_of(x, adt)
                    if vs is not None and adt in self.adts:
                        for i, v in enumerate(self.adts[adt]["v"]):
                            if v["n"] in vs:
                                out.add(self.const("int", v["d"]))
                    else:
                        out.add(self.node((f.id, bb, idx, x.id), "disc", [{x}], f, bb))
            return out
        if k == "len":
            s = self.place(f, rv[1], u)
            if not s:
                return EMPTY
            return {self.node((f.id, bb, idx), "len", [s], f, bb)}
        if k == "repeat":
            s = self.operand(f, rv[1], u)
            if not s:
                return EMPTY
            o = self.obj((f.id, bb, idx), "array", None)
            self.join(self.ocell(o, 0), s)
            return {o}
        # other
        args = []
        for x in rv[1]:
            if isinstance(x, tuple):
                args.append(self.place(f, x, u))
        if rv[1] and isinstance(rv[1][-1], tuple) and len(args) == 1:
            return set(args[0])
        return {self.node((f.id, bb, idx), "other", args, f, bb)}

    def lref(self, f, p, u):
        """Mutable reference to a projected place."""
        pr = p[1]
        e = pr[-1]
        pre = pr[:-1]
        base = self.local(f, p[0], u)
        if e[0] == "*":
            return set(self.project(f, base, pre, u, None)) if pre else set(base)
        vv = None
        if pre and pre[-1][0] == "v":
            vv = pre[-1]
            pre = pre[:-1]
        if pre:
            base = self.project(f, base, pre, u, None)
        out = set()
        for x in base:
            if x.k == "O":
                if vv is not None and x.b == "adt" and x.c[1] != vv[2]:
                    continue
                if e[0] == "f":
                    out.add(self.ref(self.ocell(x, e[1] if x.b == "builder" else e[3])))
                    continue
                if x.b == "vec" and e[0] == "i":
                    out.add(self.ref(self.ocell(x, "elem")))
                    continue
            out |= self.project(f, {x}, ([vv] if vv else []) + [e], u, None)
        for x in out:
            if x.ty is None and x.k == "P":
                x.ty = p[2]
        return out

    CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}
    ARI = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "AddWithOverflow": lambda a, b: a + b, "SubWithOverflow": lambda a, b: a - b,
           "MulWithOverflow": lambda a, b: a * b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b}

    def binop(self, f, bb, idx, op, s1, s2):
        if not s1 or not s2:
            return EMPTY
        if len(s1) <= 4 and len(s2) <= 4 and all(x.k == "K" for x in s1) and all(x.k == "K" for x in s2):
            out = set()
            try:
                for x in s1:
                    for y in s2:
                        if x.a != y.a:
                            raise ValueError
                        if op in self.CMP:
                            out.add(self.const("bool", self.CMP[op](x.b, y.b)))
                        elif op in self.ARI:
                            r = self.ARI[op](x.b, y.b)
                            if x.a == "int" and (r < 0 or r > 16):
                                raise ValueError
                            out.add(self.const(x.a, r))
                        else:
                            raise ValueError
                return out
            except ValueError:
                pass
        if self.hook is not None:
            r = self.hook_bin(f, bb, op, s1, s2)
            if r is not None:
                return r
        return {self.node((f.id, bb, idx), "op:" + op, [s1, s2], f, bb)}

    def hook_bin(self, f, bb, op, s1, s2):
        return None

    # ------------------------------------------------------------ execution
    def edge(self, f, bb, t):
        if t is None:
            return
        if (bb, t) not in f.edges:
            f.edges.add((bb, t))
            for (a, b) in f.body.phiedges.get((bb, t), ()):
                self.copy_edge(f.cell(a), f.cell(b))
            if t not in f.reached:
                f.reached.add(t)
                self.enqueue(f.unit(t))

    def exec(self, u):
        f, bb = u.f, u.bb
        sts, t, loc = f.body.blocks[bb]
        u.n += 1
        if bb != -1:
            for idx, (dest, rv, _) in enumerate(sts):
                v = self.rvalue(f, bb, idx, rv, u, dest[2])
                if v:
                    self.assign(f, bb, idx, dest, v, u)
        k = t[0]
        if k == "goto":
            self.edge(f, bb, t[1])
        elif k == "switch":
            s = self.operand(f, t[1], u)
            f.switches[bb] = s
            for x in list(s):
                if x.k == "K":
                    v = x.b
                    if isinstance(v, bool):
                        v = int(v)
                    elif isinstance(v, str):
                        v = ord(v)
                    for (val, tgt) in t[2]:
                        if val == v:
                            self.edge(f, bb, tgt)
                            break
                    else:
                        self.edge(f, bb, t[3])
                else:
                    for (val, tgt) in t[2]:
                        self.edge(f, bb, tgt)
                    self.edge(f, bb, t[3])
        elif k == "ret":
            if t[1] != -1:
                c = f.cell(t[1])
                self.copy_edge(c, f.ret)
            f.retblocks.add(bb)
            if not f.returned:
                f.returned = True
                for x in f.retdeps:
                    self.enqueue(x)
        elif k == "assert":
            self.edge(f, bb, t[4] if isinstance(t[4], int) else t[3])
        elif k == "call":
            cal = t[1]
            dest = t[3]
            tgt = t[4]
            if bb == -1 and f.force is not None:
                self.assign(f, bb, "t", dest, f.force, u)
                self.edge(f, bb, tgt)
                return
            args = [set(self.operand(f, o, u)) for o in t[2]]
            if "op" in cal and cal["n"] == "<indirect>":
                c = Call(self, f, bb, (), cal, args, dest[2], u)
                r = self.call_value(c, self.operand(f, cal["op"], u), args, "ind")
            else:
                if any(not a for a in args):
                    f.calls[bb] = (cal, args, dest)
                    return
                c = Call(self, f, bb, (), cal, args, dest[2], u)
                f.calls[bb] = (cal, args, dest)
                r = self.do_call(c)
            if self.post is not None and r:
                r = self.post(c, r)
            f.calls[bb] = (cal, args, dest)
            if r:
                self.assign(f, bb, "t", dest, r, u)
                if tgt is not None:
                    self.edge(f, bb, tgt)
        # unreach, abort: nothing

    def run(self):
        q = self.queue
        while q or self.lowq:
            if not q:
                # nothing else to do: what still looks empty is empty for now
                u = self.lowq.pop(0)
                self.settled.add(u)
                self.enqueue(u)
            # newest first keeps callees ahead of callers
            u = q.pop()
            u.queued = False
            self.steps += 1
            if self.steps > self.budget:
                raise RuntimeError("analysis budget exceeded")
            self.exec(u)

    def find(self, name, full=None):
        r = [m for m, i in self.I.items() if i["n"] == name and (full is None or full in i["full"])]
        return r

    def root(self, m, args=None):
        """args: dict param index (0-based) -> set of atoms; missing ones become symbols named after the parameter."""
        inst = self.I[m]
        fr = Frame(self, m, self.body(m), None, "root")
        for i in range(inst["argc"]):
            l = i + 1
            v = fr.body.entryver[l] if l not in fr.body.taken else -2 - l
            if args and i in args:
                s = args[i]
            else:
                nm = inst["names"][l] if l < len(inst["names"]) and inst["names"][l] else "arg%d" % i
                s = {self.sym(nm, inst["locals"][l])}
            self.join(fr.cell(v), set(s))
        self.roots.append(fr)
        self.start_frame(fr)
        self.run()
        return fr

    # ------------------------------------------------------------ continuation from a point
    def continue_from(self, f, bb, force, until=None, locals=None):
        """Re-analyse what can follow when the call ending block bb of frame f returns `force`, all the way up
        the call path. Returns the continuation's root frame. `until`: stop at this ancestor frame (inclusive).
        With `locals` (values the statements of the block gave to locals), force is None: goes on with the end of the block."""
        fr = self._cont(f, bb, locals)
        fr.force = None if force is None else set(force)
        top = fr
        cur_old, cur_new = f, fr
        chain = []
        while cur_old is not until and cur_old.parent is not None:
            p = cur_old.parent
            pb = cur_old.key[0]
            nf = self._cont(p, pb)
            nf.preset = {((-1, cur_old.key[1]), cur_old.m): cur_new}
            cur_new.parent = nf
            chain.append(nf)
            cur_old, cur_new = p, nf
            top = nf
        d = 0
        x = fr
        while x is not None:
            x = x.parent
        # start innermost first, then all parents' terminators
        self.start_frame(fr)
        for nf in chain:
            self.start_frame(nf)
        self.cont_chain = [fr] + chain[:-1]
        self.run()
        return top

    def _cont(self, f, bb, locals=None):
        """Continuation frame of f at the terminator of block bb."""
        src = f
        start = bb
        if bb == -1:
            start = f.body.start
        body = self.body(f.m, start)
        nf = Frame(self, f.m, body, None, f.key)
        nf.depth = f.depth
        nf.base = f
        outv = f.body.outv[bb]
        for l, v in body.entryver.items():
            sv = outv.get(l, l) if l in f.body.multi else l
            if sv == -1:
                continue
            srcc = f.cells.get(sv)
            if locals and l in locals:
                self.join(nf.cell(v), set(locals[l]))
            elif srcc is not None:
                self.join(nf.cell(v), set(srcc.v))
        return nf

    # ------------------------------------------------------------ queries
    def calls(self, pred):
        """All reached direct call sites whose callee name satisfies pred -> (frame, bb, callee, args)."""
        for f in self.frames:
            for bb, (cal, args, dest) in f.calls.items():
                if pred(cal):
                    yield f, bb, cal, args

    def variants(self, s, adt=None):
        """Variant indices an abstract value may have; None element = unknown."""
        out = set()
        for x in s:
            if x.k == "O" and x.b == "adt":
                out.add(x.c[1])
            elif x.k == "U":
                out.add(x.b)
            elif x.k == "R":
                out |= self.variants(x.cell.v)
            else:
                out.add(None)
        return out
