"""Included files: every file named by `_include` is loaded and merged without losing rules; makedeps lists every one of them."""
from core import *

S, I = "$str", "$int"
FILE = S
DROP = {"take", "skip", "step_by", "filter", "filter_map", "take_while", "skip_while", "map_while", "truncate", "retain", "dedup", "split_off", "drain", "nth", "pop", "split_first", "split_last", "dedup_by_key",
        "dedup_by", "swap_remove"}
OPEN = ("std::fs::File::open", "std::fs::read_to_string", "std::fs::read")
MUT = {"insert", "push", "extend", "append", "extend_from_slice", "replace", "or_insert", "or_insert_with", "insert_entry", "clone_from", "splice", "push_back"}


class Load:
    """Patch loading with a given including document (atoms P..) and included document (atoms C..); nested loading and merging is cut."""

    def __init__(self, root, parent, child, contains=False, same=False, empty=False):
        F = facts()[0]
        self.parent, self.child, self.contains, self.same, self.empty = parent, child, contains, same, empty
        self.nested = []
        self.loads = []
        self.run = Run(F, fn(F, root), {}, hook=self.hook, disc=None)
        self.eng = self.run.eng
        self.cfg = Icfg(self.eng)
        self.errs = err_nodes(self.eng)

    def hook(self, c):
        eng = c.eng
        last = c.n.rsplit("::", 1)[-1]
        if last == "load_from_str":
            inc = any(x.k == "Y" for x in leaves(c.args[0]))
            o = c.obj("vec", None, "docs")
            if inc and self.empty:
                return c.ok({o})
            d = eng.doc(self.child, "C") if inc else eng.doc(self.parent, "P")
            c.put(o, "elem", {d})
            return c.ok({o})
        if last in ("eq", "ne") and len(c.args) == 2 and not c.callee.get("inst"):
            a, b = ({y.b.split("/")[0] for y in leaves(x) if y.k == "Y"} for x in c.args)
            if {"P", "C"} <= a | b and a and b:
                return {eng.TRUE if self.same == (last == "eq") else eng.FALSE}
        if last == "contains" and c.args and "contains_key" not in c.n:
            l = leaves(c.args[0])
            if any(x.k == "Y" and x.a == "arr" for x in l):
                return {eng.TRUE if self.contains else eng.FALSE}
            if any(x.k == "O" and x.b == "vec" for x in c.deref(c.args[0])):
                return {eng.FALSE}
        if last == "is_empty" and any(x.k == "O" and x.b == "vec" and x.cells and "docs" in str(x.a) for x in c.deref(c.args[0])):
            return {eng.TRUE if self.empty else eng.FALSE}
        if last in ("get", "get_mut", "index") and len(c.args) > 1 and "inst" not in c.callee and consts(c.args[1]) == {"_path"}:
            # put there by the loading code
            v = {eng.doc(S, y.b + "/_path") for y in c.deref(c.args[0]) if y.k == "Y" and y.a == "hash"}
            if v:
                return c.some(v) if last != "index" else v
        if last in ("len", "is_empty") and c.args and not c.callee.get("inst") and any(x.k == "Y" and x.a == "hash" for x in c.deref(c.args[0])):
            # entries are added and removed by the loading code
            return {eng.TRUE, eng.FALSE} if last == "is_empty" else {c.node("len", [c.args[0]], tag="yl")}
        i = c.callee.get("inst")
        if i and c.args:
            g = c.f
            while g is not None and g.m != i:
                g = g.parent
            ys = [{y.b for y in c.deref(a) if y.k == "Y"} for a in c.args]
            if g is not None and any(ys):
                self.nested.append((c.f, c.bb, ys))
                mark = eng.sym("$nested:%s@%s %s" % (",".join(sorted(set().union(*ys))), c.f.n, c.f.loc(c.bb)))
                o = c.obj("vec", None, "nested")
                c.put(o, "elem", {mark})
                for a in c.args:
                    for x in a:
                        for v in (x.cell.v if x.k == "R" else ()):
                            if v.k == "O" and v.b == "vec":
                                c.put(v, "elem", {mark})
                return c.ok({o})
        return None

    def effects(self, frm, into="P"):
        """Calls and assignments that put values coming from the given document part into the including document."""
        out = []
        for f in self.eng.frames:
            for bb, (cal, args, dest) in f.calls.items():
                if cal["n"].rsplit("::", 1)[-1] not in MUT or len(args) < 2 or not under(args[0], into):
                    continue
                if any(under(a, frm) for a in args[1:]):
                    out.append((f, bb))
            for (bb, idx), (bases, adt, field, vals, ty) in f.writes.items():
                if under(bases, into) and under(vals, frm):
                    out.append((f, bb))
        return out

    def merges(self):
        """Calls of local functions that take both documents."""
        out = []
        for f in self.eng.frames:
            for bb, (cal, args, dest) in f.calls.items():
                if cal.get("inst") and len(args) > 1 and {"P", "C"} <= {y.b for a in args for y in deref(a) if y.k == "Y"}:
                    out.append((f, bb))
        return out

    def must(self, points, acts):
        """Can the run get back to one of the points, or succeed, after it handed out an entry without one of the acts? -> path"""
        av = {(f, bb, 0) for f, bb in acts} | self.errs
        for h in self.inner(points, acts):
            av.add((h[0], h[1], 0))
        inner = self.inner(points, acts)
        points = [h for h in points if h not in inner]
        for f, bb in points:
            if self.leaves_early(f, bb):
                return "%s %s (the loop is left early)" % (f.n, f.loc(bb))
        for f, bb in points:
            starts = [(f, b, 0) for b in some_starts(f, bb)] if some_starts(f, bb) else [(f, bb, 1)]
            starts = [s for s in starts if s not in av]
            r = self.cfg.reach(starts, avoid=av)
            root = self.eng.frames[0]
            if (f, bb, 0) in r:
                return "%s %s" % (f.n, f.loc(bb))
            for n in r:
                if n[0] is root and n[0].body.blocks[n[1]][1][0] == "ret":
                    return "%s %s" % (f.n, f.loc(bb))
        return None

    def inner(self, points, acts):
        """Loops over the elements of a list that pass one of the acts for each element."""
        out = []
        for f, bb in self.handouts("C/K/0", "C/K/1"):
            if not under_any(f.cells[f.calls[bb][2][0]].v, "C/K", exact=True) and acts:
                av = {(g, b, 0) for g, b in acts} | self.errs
                if (f, bb, 0) not in self.cfg.reach([(f, b, 0) for b in some_starts(f, bb)], avoid=av):
                    out.append((f, bb))
        return out

    def leaves_early(self, f, bb):
        """Can the run succeed without asking for the next entry?"""
        if f.calls[bb][0]["n"].rsplit("::", 1)[-1] not in ("next", "next_back", "pop"):
            return False
        r = self.cfg.reach([(f, b, 0) for b in some_starts(f, bb)], avoid=self.errs | {(f, bb, 0)})
        root = self.eng.frames[0]
        return any(n[0] is root and n[0].body.blocks[n[1]][1][0] == "ret" for n in r)

    def dropping(self, part):
        """Iterator adapters and list operations that leave elements of the given part out."""
        out = []
        for f in self.eng.frames:
            for bb, (cal, args, dest) in f.calls.items():
                n = cal["n"].rsplit("::", 1)[-1]
                if n in DROP and args and tainted(args[0], part):
                    if n in ("filter", "retain", "take_while", "map_while", "filter_map", "skip_while"):
                        rs = [k.ret.v for (key, m), k in f.kids.items() if key[0] == bb]
                        if rs and all(x is self.eng.TRUE or n == "filter_map" and x.k == "O" for r in rs for x in r):
                            continue
                    if n == "skip" and all(x.k == "K" and x.b == 0 for x in args[1]):
                        continue
                    out.append("%s %s (%s)" % (f.n, f.loc(bb), n))
        return out

    def handouts(self, *paths):
        """Calls that hand out an element (Some) made of one of the given document parts."""
        out = []
        for f in self.eng.frames:
            for bb, (cal, args, dest) in f.calls.items():
                if cal["n"].rsplit("::", 1)[-1] in ("next", "next_back", "pop") and not dest[1] and dest[0] in f.cells and any(under_any(f.cells[dest[0]].v, p) for p in paths):
                    out.append((f, bb))
        return out


def tainted(atoms, what):
    l = leaves(atoms)
    if what.startswith("$"):
        return any(x.k == "S" and x.a == what for x in l)
    return any(x.k == "Y" and (x.b == what or x.b.startswith(what + "/")) for x in l)


def deref(a):
    out = set()
    for x in a:
        if x.k == "R":
            out |= set(x.cell.v)
        else:
            out.add(x)
    return out


def under(atoms, p):
    return any(y.k == "Y" and (y.b == p or y.b.startswith(p + "/")) for y in leaves(atoms))


def under_any(atoms, p, depth=0, exact=False):
    """Is the document part (or its key) itself among the values, their fields or referents?"""
    for x in atoms:
        if x.k == "Y" and (x.b in (p, p + "~key") or x.b.startswith(p + "/") and not exact):
            return True
        if depth < 6 and (x.k == "O" and any(under_any(c.v, p, depth + 1, exact) for c in x.cells.values()) or x.k == "R" and under_any(x.cell.v, p, depth + 1, exact)
                          or x.k == "P" and under_any({x.a}, p, depth, exact) or x.k == "N" and any(under_any(a, p, depth + 1, exact) for a in x.eng.ninfo[x][1])):
            return True
    return False


A = [S, S]
KEYS = ["_svd", "_delete", "_copy", "_modify", "_add", "_derive", "_rebase", "_clear_fields", "_clear", "_peripherals", "_interrupts", "_strip", "_strip_end", "_prefix", "_suffix", "_array", "_expand_array", "_cluster", "_clusters",
        "_expand_cluster", "_registers", "_merge", "_split", "_read", "_write", "_replace_enum", "_W1C", "_derivedFrom", "_includes", "_paths", "_x", "__x", "name", "R", "F%s", "?~R*", "GPIO[AB]", "3"]
H = {"N": S}
# (including value, included value, list contains the name): None: taken over; parts that make up the result; False: kept; "error"; "merge"
TABLE = [
    (None, S, None, ("C/K",)), (None, A, None, ("C/K",)), (None, H, None, ("C/K",)), (None, I, None, ("C/K",)), (None, "$bool", None, ("C/K",)),
    (A, A, False, ("C/K",)), (A, A, True, ("C/K",)), (A, S, False, ("C/K",)), (A, S, True, False), (S, A, False, ("C/K", "P/K")), (S, A, True, ("C/K",)),
    (S, S, False, False), (I, I, False, False), ("$bool", "$bool", False, False), (S, I, False, False), (I, S, False, False),
    (H, H, False, "merge"), (H, S, False, "error"), (H, A, False, "error"), (H, I, False, "error"),
]


def merging(rep):
    for pv, cv, con, want in TABLE:
        P = {"_include": FILE}
        if pv is not None:
            P["K"] = pv
        r = Load("patch::load_patch", P, {"K": cv}, contains=con)
        label = "merge %s <- %s%s" % (pv, cv, " (contained)" if con else "")
        drop = r.dropping("C")
        rep.require(not drop, label + "/all", "%s: rules of the included file are left out at %s" % (label, drop[:2]))
        ok = may_ok(r.eng, r.run.ret)
        if not r.merges():
            raise Anchor("merging of an included document not found")
        rep.count("scenarios")
        rep.count("frames", len(r.eng.frames))
        if want == "error":
            bad = r.must(r.handouts("C/K"), [])
            rep.require(not bad, label, "%s: a mapping is merged with something else without an error (%s)" % (label, bad))
            continue
        rep.require(ok, label + "/ok", "%s: merging never succeeds" % label)
        pts = r.handouts("C/K")
        if not pts:
            raise Anchor("%s: no loop over the included rules" % label)
        if want is False:
            eff = r.effects("C/K")
            rep.require(not eff, label, "%s: the including file's value is changed at %s" % (label, ["%s %s" % (f.n, f.loc(b)) for f, b in eff][:2]))
        elif want == "merge":
            acts = [(f, bb) for f, bb, ys in r.nested if any("P/K" in y for y in ys) and any("C/K" in y for y in ys)]
            bad = r.must(pts, acts) if acts else "no nested merge"
            rep.require(not bad, label, "%s: nested rules are not merged: %s" % (label, bad))
        else:
            for p in want:
                # the including file's value may be put into a copy of the included list
                acts = r.effects(p) + (r.effects(p, "C/K") if p == "P/K" else [])
                bad = r.must(pts, acts) if acts else "nothing puts the value into the including document"
                rep.require(not bad, label, "%s: a rule of the %s file is lost: %s" % (label, "including" if p == "P/K" else "included", bad))
    for key in KEYS:
        r = Load("patch::load_patch", {"_include": FILE}, {key: S})
        pts, acts = r.handouts("C/" + key), r.effects("C/" + key)
        bad = r.must(pts, acts) if acts else "nothing puts the value into the including document"
        rep.require(pts and not bad, "merge key " + key, "the rule `%s` of an included file is lost: %s" % (key, bad))
        rep.count("scenarios")
        rep.count("frames", len(r.eng.frames))
    # identical rules: nothing may be lost, nothing fails
    r = Load("patch::load_patch", {"_include": FILE, "K": S}, {"K": S}, same=True)
    rep.require(may_ok(r.eng, r.run.ret), "merge same", "identical rules make the merge fail")


def loading(rep):
    # device level
    for inc, pts in ((FILE, ("P/_include",)), ([FILE, S], ("P/_include/0", "P/_include/1"))):
        r = Load("patch::load_patch", {"_include": inc, "K": S}, {"N": S})
        label = "_include %s" % inc
        acts = r.merges()
        opens = [(f, bb, args) for f in r.eng.frames for bb, (cal, args, d) in f.calls.items() if cal["n"] in OPEN and under(args[0], "P/_include")]
        if not opens:
            raise Anchor("the included file is not opened")
        names = [h for h in r.handouts("P/_include") if any((f, bb, 0) in r.cfg.reach([(h[0], b, 0) for b in some_starts(*h)], avoid={(h[0], h[1], 0)}) for f, bb, _ in opens)]
        for p in pts:
            h = [x for x in names if x in r.handouts(p)]
            if not h:
                raise Anchor("no loop over the included files")
            bad = r.must(h, acts)
            rep.require(not bad, label, "%s: an included file is not merged: %s" % (label, bad))
        # the file is read relative to the including one
        drop = r.dropping("P")
        rep.require(not drop, label + "/all", "%s: included files are left out at %s" % (label, drop[:2]))
        for f, bb, args in opens:
            rep.require(under(args[0], "P/_path"), label + "/relative", "%s: the file opened at %s %s is not resolved against the including file" % (label, f.n, f.loc(bb)))
        # further includes of the included document are loaded first, with its own location
        nest = [(f, bb) for f, bb, ys in r.nested if {"C"} in ys and not any("P" in y for y in ys)]
        bad = r.must(names, nest) if nest else "no nested loading"
        rep.require(not bad, label + "/nested", "%s: includes of the included file are not followed: %s" % (label, bad))
        for m in acts:
            rr = r.cfg.reach([(m[0], m[1], 1)], avoid=r.errs | {(f, b, 0) for f, b in names})
            rep.require(not any((f, b, 0) in rr for f, b in nest), label + "/nested order", "%s: the included file's own includes are followed only after it was merged" % label)
        sets = [(f, bb) for f in r.eng.frames for bb, (cal, args, d) in f.calls.items() if cal["n"].rsplit("::", 1)[-1] == "insert" and len(args) > 2
                and "C" in {y.b for y in deref(args[0]) if y.k == "Y"} and "_path" in consts(args[1]) and under(args[2], "P/_include")]
        known = set().union(*[leaves(args[0]) for _, _, args in opens])
        for f, bb in sets:
            new = [x for x in leaves(f.calls[bb][1][2]) if x.k == "N" and x not in known and not x.eng.ninfo[x][0].rsplit("::", 1)[-1].startswith(("to_", "as_", "into_", "unwrap", "display", "clone"))]
            rep.require(not new, label + "/nested path", "%s: the location recorded for the included file is not the one it was opened at (%s %s: %s)" % (label, f.n, f.loc(bb), new[:2]))
        for f, bb in nest:
            rr = r.cfg.reach([(o[0], o[1], 1) for o in opens], avoid={(g, b, 0) for g, b in sets} | r.errs)
            rep.require((f, bb, 0) not in rr, label + "/nested path", "%s: the location of the included file is not set before its own includes are followed (%s %s)" % (label, f.n, f.loc(bb)))
        rep.count("scenarios")
        rep.count("frames", len(r.eng.frames))
    # a file without rules
    r = Load("patch::load_patch", {"_include": FILE, "K": S}, {"N": S}, empty=True)
    rep.require(may_ok(r.eng, r.run.ret), "_include empty", "an included file without rules makes the run fail")
    # peripheral level
    for inc in (S, [S]):
        label = "peripheral _include %s" % inc
        r = Load("patch::load_patch", {"X": {"_include": inc, "K": S}}, {"N": S})
        nest = [(f, bb) for f, bb, ys in r.nested if any("P/X" in y for y in ys)]
        h = [x for x in r.handouts("P/X") if any(x[0] is n[0] for n in nest)]
        rep.require(bool(nest and h), label, "%s: includes of a peripheral block are not followed" % label)
        bad = r.must(h, nest) if nest else None
        rep.require(not bad, label, "%s: the include of a peripheral block is not followed: %s" % (label, bad))
        sets = [(f, bb) for f in r.eng.frames for bb, (cal, args, d) in f.calls.items() if cal["n"].rsplit("::", 1)[-1] == "insert" and len(args) > 2
                and "P/X" in {y.b for y in deref(args[0]) if y.k == "Y"} and "_path" in consts(args[1]) and under(args[2], "P/_path")]
        bad = r.must(h, sets) if sets else "never set"
        rep.require(not bad, label + "/path", "%s: the location of the including file is not set for the block: %s" % (label, bad))
        rep.count("scenarios")
        rep.count("frames", len(r.eng.frames))
        # which files count as merged already
        r = Load("patch::load_patch", {"X": {"_include": inc, "K": S}, "_include": S}, {"N": S})
        for f in r.eng.frames:
            for bb, (cal, args, d) in f.calls.items():
                if cal["n"].rsplit("::", 1)[-1] == "contains" and len(args) > 1 and under(args[1], "P/_include"):
                    marks = {x.a for x in leaves(args[0]) if x.k == "S" and str(x.a).startswith("$nested:P/")}
                    rep.require(not marks, label + "/skip", "%s %s: a file that only a peripheral block includes counts as merged at device level" % (f.n, f.loc(bb)))
        rep.count("scenarios")
        rep.count("frames", len(r.eng.frames))


def check(rep):
    loading(rep)
    merging(rep)
    return ("Loading and merging of patch files is analysed from its entry point with an including and an included document of given shape: from every point that hands out a file name or a rule of the "
            "included file, each path that does not fail passes the step that merges it, with the values it has to be made of.")
