"""Loops over device elements, what they put out for each element, and how values are composed."""
from core import *

DROP = {"take", "skip", "step_by", "filter", "filter_map", "take_while", "skip_while", "map_while", "truncate", "retain", "dedup", "split_off", "nth", "pop", "split_first", "split_last", "dedup_by_key",
        "dedup_by", "unique", "unique_by", "swap_remove", "find", "find_map", "last", "first", "position", "retain_mut", "clear", "remove"}
SINK = {"push", "push_str", "push_back", "insert", "extend", "extend_from_slice", "append", "write_str", "write_all", "write_fmt", "_print", "add", "add_assign"}
TAKE = {"next", "next_back", "pop", "pop_front"}
ROOTS = ("::parse", "::expand", "parse_with_config", "from_reader", "from_str")
SKIPKEYS = ("Ok", "Some", "elem", "Single/0", "Array/0")


def gchain(x):
    """Path of an SVD value from the device; an element of an expanded array is (like) the array itself."""
    base = x
    while base.k == "P":
        base = base.a
    ks = chain_of(x)
    pre = ()
    if base.k == "N":
        n = base.eng.ninfo[base][0]
        if n.endswith("::expand") or n.endswith("names") or n.endswith("::indexes"):
            for y in base.eng.ninfo[base][1][0]:
                for z in y.cell.v if y.k == "R" else (y,):
                    if z.k == "P":
                        pre = gchain(z)
                        break
            # the elements of the iterator
            if ks[:1] == ["elem"]:
                ks = ks[1:]
    return pre + tuple(k for k in ks if k not in SKIPKEYS)


def expanded(x):
    while x.k == "P":
        x = x.a
    return x.k == "N" and x.eng.ninfo[x][0].endswith("::expand")


def parts(atoms):
    """The SVD attributes (P atoms) and constants a value is directly made of."""
    out, seen, todo = set(), set(), list(atoms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "P":
            b = x
            while b.k == "P":
                b = b.a
            if b.k == "N" and not b.eng.ninfo[b][0].endswith(ROOTS):
                todo.append(b)
            else:
                out.add(x)
                todo.extend(x.cell.v if x.cell is not None else ())
        elif x.k == "N":
            if x.eng.ninfo[x][0].endswith("::indexes"):
                continue
            for a in x.eng.ninfo[x][1]:
                todo.extend(a)
        elif x.k == "O":
            for c in x.cells.values():
                todo.extend(c.v)
        elif x.k == "R":
            todo.extend(x.cell.v)
        elif x.k in "KS":
            out.add(x)
    return out


def surely(atoms, memo=None, depth=0):
    """Attributes that are part of the value on every path it is computed on."""
    memo = {} if memo is None else memo
    out = None
    for x in atoms:
        if x.k == "K" and x.a == "str" and x.b == "" and False:
            continue
        a = surely1(x, memo, depth)
        out = a if out is None else out & a
    return out or set()


def surely1(x, memo, depth):
    if x in memo:
        return memo[x]
    memo[x] = set()
    out = set()
    if x.k == "P":
        b = x
        while b.k == "P":
            b = b.a
        if b.k == "N" and not b.eng.ninfo[b][0].endswith(ROOTS):
            out = set(surely1(b, memo, depth + 1))
        else:
            out = {x}
    elif x.k == "N":
        for a in x.eng.ninfo[x][1]:
            out |= surely(a, memo, depth + 1)
    elif x.k == "R":
        out = set(surely(x.cell.v, memo, depth + 1))
    elif x.k == "O":
        for c in x.cells.values():
            if x.b in ("adt", "tuple", "array"):
                out |= surely(c.v, memo, depth + 1)
            else:
                for y in c.v:
                    out |= surely1(y, memo, depth + 1)
    memo[x] = out
    return out


def attrs(atoms):
    return {gchain(x) for x in parts(atoms) if x.k == "P"}


class Flow:
    def __init__(self, root, args=None, hook=None, disc=None, rec=3, facts_=None):
        F = facts_ or facts()[0]

        def init(eng):
            eng.rec = rec
            eng.maxdepth = 24
        self.run = Run(F, fn(F, root), args or {}, hook=hook, disc=disc, init=init)
        self.eng = self.run.eng
        self.cfg = Icfg(self.eng)
        self.errs = err_nodes(self.eng)

    def calls(self, *names):
        for f in self.eng.frames:
            for bb, (cal, args, dest) in f.calls.items():
                n = cal["n"].rsplit("::", 1)[-1]
                if not names or n in names:
                    yield f, bb, n, cal, args, dest

    def handouts(self, pred):
        """Points that hand out (one by one) elements satisfying pred: ('next', frame, block) or ('closure', frame, entry)."""
        out = []
        for f, bb, n, cal, args, dest in self.calls(*TAKE):
            if dest[1] or dest[0] not in f.cells:
                continue
            pay = payload(self.eng, f.cells[dest[0]].v)
            if any(pred(x) for x in pay) or n == "next" and any(x.k == "N" and self.eng.ninfo[x][0] == "range" for x in pay) and any(pred(x) for x in self.counted(args[0])):
                out.append(("next", f, bb))
        for f in self.eng.frames:
            if f.parent is None:
                continue
            key = [k for (k, m), v in f.parent.kids.items() if v is f]
            if not key or not key[0][1]:
                continue
            # a closure called by library code
            for l in range(2, 5):
                vs = set()
                for c in (f.cells.get(f.body.entryver.get(l)), f.cells.get(-2 - l)):
                    if c is not None:
                        vs |= c.v
                if any(pred(x) for x in payload(self.eng, vs)):
                    out.append(("closure", f, f.body.entry))
                    break
        return out

    def counted(self, rng):
        """Elements of the container whose indices the range counts (0 up to its length)."""
        out = set()
        for x in flat_refs(rng):
            if x.k == "O" and x.b == "adt" and x.c and x.c[0].endswith("Range") and all(y.k == "K" and y.b == 0 for y in x.cells[0].v):
                for y in x.cells[1].v:
                    if y.k == "N" and self.eng.ninfo[y][0] == "len":
                        for z in self.eng.ninfo[y][1][0]:
                            if z.k == "P":
                                out.add(self.eng.proj(z, "elem"))
                            elif z.k == "O" and "elem" in z.cells:
                                out |= z.cells["elem"].v
        return out

    def starts(self, h):
        k, f, bb = h
        if k == "next":
            return [(f, b, 0) for b in some_starts(f, bb)]
        return [(f, bb, 0)]

    def drops(self, h):
        """Adapters that leave elements out of the iteration of hand-out h."""
        k, f, bb = h
        if k != "next":
            f, bb = f.parent, [key for (key, m), v in f.parent.kids.items() if v is f][0][0]
        mine = iterobjs(f.calls[bb][1][0])
        for g, b, n, cal, args, dest in self.calls(*DROP):
            if not args or not (iterobjs(args[0]) & mine):
                continue
            if self.keeps(g, b, n):
                continue
            if n == "skip" and len(args) > 1 and all(x.k == "K" and x.b == 0 for x in args[1]):
                continue
            if (g, b) == (f, bb):
                continue
            return "%s %s (%s)" % (g.n, g.loc(b), n)
        return None

    def keeps(self, f, bb, n):
        """Does the closure given to the adapter call at bb keep every element?"""
        fn_ = {x.c for a in f.calls[bb][1][1:] for x in flat_refs(a) if x.k == "O" and x.b == "closure"}
        rs = [x for g in self.eng.frames for (key, m), kid in g.kids.items() if m in fn_ for x in kid.ret.v]
        if not rs:
            return False
        if n in ("filter", "take_while", "retain", "retain_mut"):
            return all(x is self.eng.TRUE for x in rs)
        if n == "skip_while":
            return all(x is self.eng.FALSE for x in rs)
        if n in ("filter_map", "map_while"):
            return all(x.k == "O" and x.b == "adt" and x.c == (OPTION, 1) or x.k in "PS" and self.eng.disc_of(x, OPTION) == {"Some"} for x in rs)
        return False

    def node(self, h):
        k, f, bb = h
        if k == "next":
            return (f, bb, 0)
        return (f.parent, [key for (key, m), v in f.parent.kids.items() if v is f][0][0], 0)

    def prove(self, levels, acts):
        """Is one of the acts passed for each element of the nested iterations `levels` (predicates, outermost first)? -> None or why not"""
        acts = set(acts)
        for name, pred in reversed(levels):
            good, why = [], "nothing iterates over the %s" % name
            for h in self.handouts(pred):
                bad = self.must([h], acts) or self.early([h]) or self.drops(h)
                if bad:
                    if self.node(h) not in acts:
                        why = "%s: some are left out at %s" % (name, bad)
                else:
                    good.append(h)
            if not good:
                return why
            acts = {self.node(h) for h in good}
        root = self.eng.frames[0]
        r = self.cfg.reach([(root, root.body.entry, 0)], avoid=acts | self.errs)
        if (root, root.body.entry, 0) in acts:
            return None
        for n in r:
            if n[0] is root and n[0].body.blocks[n[1]][1][0] == "ret":
                return "the iteration over the %s can be bypassed" % levels[0][0]
        return None

    def must(self, points, acts, free=()):
        """Can the run get back to a point, or succeed, after the point handed out an element without one of the acts (nodes)?"""
        av = set(acts) | self.errs
        root = self.eng.frames[0]
        for h in points:
            k, f, bb = h
            st = [s for s in self.starts(h) if s not in av]
            if k == "closure" and (f, bb, 0) in av:
                continue
            r = {s: None for s in st} if k == "next" else {}
            r.update(self.cfg.reach(st, avoid=av))
            if (f, bb, 0) in r:
                return "%s %s" % (f.n, f.loc(bb))
            for n in r:
                if n[0] is root and n[0].body.blocks[n[1]][1][0] == "ret":
                    return "%s %s" % (f.n, f.loc(bb))
        return None

    def early(self, points):
        """Loops that can be left, the run succeeding, before the last element was handed out."""
        root = self.eng.frames[0]
        for k, f, bb in points:
            if k != "next":
                continue
            r = {s: None for s in self.starts((k, f, bb)) if s not in self.errs}
            r.update(self.cfg.reach(list(r), avoid=self.errs | {(f, bb, 0)}))
            for n in r:
                if n[0] is root and n[0].body.blocks[n[1]][1][0] == "ret":
                    return "%s %s" % (f.n, f.loc(bb))
        return None


def payload(eng, atoms):
    """Values handed out directly, in an Option or in a tuple (enumerate, zip)."""
    out, todo, seen = set(), list(atoms), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add(x)
        if x.k == "R":
            todo.extend(x.cell.v)
        elif x.k == "O" and x.b in ("adt", "tuple") and len(x.cells) <= 4 and len(seen) < 60:
            if x.b == "tuple" or x.c[0] in (OPTION, RESULT):
                for c in x.cells.values():
                    todo.extend(c.v)
    return out


def iterobjs(atoms):
    out, todo, seen = set(), list(atoms), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "R":
            todo.extend(x.cell.v)
        elif x.k == "O" and x.b in ("iter", "adt", "tuple"):
            if x.b == "iter":
                out.add(x)
            for k, c in x.cells.items():
                todo.extend(c.v)
    return out


ARITH = ("op:Add", "op:AddWithOverflow", "op:AddUnchecked")
PASS = ("cast:", "conv:", "std::convert::", "std::option::Option::<T>::unwrap", "std::result::Result::<T, E>::unwrap")
ADDS = ("wrapping_add", "saturating_add", "checked_add", "std::ops::Add::add")


def sums(x, depth=0):
    """The possible sums a number is, as tuples of summands; None for anything else."""
    if x.k == "P":
        b = x
        while b.k == "P":
            b = b.a
        if b.k == "N" and chain_of(x) in (["Some"], ["Ok"]) and b.eng.ninfo[b][0].endswith(ADDS):
            return sums(b, depth + 1)
        if b.k == "N" and b.eng.ninfo[b][0].endswith("WithOverflow") and chain_of(x)[-1:] in (["0"], ["/0"]):
            return sums(b, depth + 1)
        return {(x,)}
    if x.k == "K":
        return {()} if x.b == 0 else {(x,)}
    if x.k == "R":
        out = set()
        for y in x.cell.v:
            s = sums(y, depth + 1)
            if s is None:
                return None
            out |= s
        return out
    if x.k != "N" or depth > 12:
        return None
    n, args = x.eng.ninfo[x][:2]
    if n in ARITH or n.endswith(ADDS):
        acc = {()}
        for a in args[:2]:
            s = set()
            for y in a:
                t = sums(y, depth + 1)
                if t is None:
                    return None
                s |= t
            acc = {tuple(sorted(p + q, key=lambda z: z.id)) for p in acc for q in s}
        return acc
    if n.startswith(PASS) and args:
        out = set()
        for y in args[0]:
            t = sums(y, depth + 1)
            if t is None:
                return None
            out |= t
        return out
    return None


def numbers(atoms):
    """Numeric sub-expressions (sums) a text is formatted from: [(top node, set of sums)]"""
    out, seen, todo = {}, set(), list(atoms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        s = sums(x) if x.k in "PN" else None
        if s is not None:
            out[x] = s
            continue
        if x.k == "N":
            for a in x.eng.ninfo[x][1]:
                todo.extend(a)
        elif x.k == "P":
            todo.append(x.a)
        elif x.k == "O":
            for c in x.cells.values():
                todo.extend(c.v)
        elif x.k == "R":
            todo.extend(x.cell.v)
    return out


def outputs(fl):
    """Statements that put out a text: additions to a list or string, printing, results of closures called by library code."""
    for f, bb, n, cal, args, dest in fl.calls(*SINK):
        texts = args if n == "_print" else args[1:]
        if texts and not cal.get("inst"):
            yield f, bb, n, set().union(*texts)
    for f in fl.eng.frames:
        if f.parent is not None and any(key[1] for (key, m), v in f.parent.kids.items() if v is f) and f.ret.v:
            for bb in f.reached:
                if f.body.blocks[bb][1][0] == "ret":
                    yield f, bb, "return", f.ret.v


def flat_refs(atoms):
    out = set()
    for x in atoms:
        out |= flat_refs(x.cell.v) if x.k == "R" else {x}
    return out
