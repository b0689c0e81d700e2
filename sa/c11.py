"""`_strip`, `_strip_end`, `_prefix` and `_suffix` take off and put on names exactly what they say."""
from flow import *
import c31

T = ("AFFIX", "OTHER")
NAMES = {"Register": ("name", "display_name.Some", "alternate_register.Some"), "Cluster": ("name", "header_struct_name.Some", "alternate_cluster.Some"), "Field": ("name",)}
LEVELS = [
    ("peripheral", lambda b: {"P": b}, "/P", ("Register", "Cluster"), ("registers()", "clusters()"), 1),
    ("cluster", lambda b: {"P": {"_clusters": {"C": b}}}, "/P/_clusters/C", ("Register", "Cluster"), ("clusters().registers()", "clusters().clusters()"), 2),
    ("register", lambda b: {"P": {"R": b}}, "/P/R", ("Field",), ("registers().fields",), 2),
    ("register in cluster", lambda b: {"P": {"_clusters": {"C": {"R": b}}}}, "/P/_clusters/C/R", ("Field",), ("clusters().registers().fields",), 3),
]
STRIP = ("_strip", "_strip_end")
ADD = ("_prefix", "_suffix")
BACK = {"rev", "rfind", "rposition", "last", "next_back", "max", "max_by", "max_by_key", "rfold", "nth_back", "rfind_map"}
SAME = ("::clone", "::to_string", "::to_owned", "::into", "::from", "::deref", "::as_str", "::as_mut_str", "::borrow", "::as_ref", "::deref_mut", "::as_mut", "::as_mut_string")


def see(atoms):
    """The values themselves: through references and copies."""
    out, seen, todo = set(), set(), list(atoms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "R":
            todo.extend(x.cell.v)
        elif x.k == "N" and x.eng.ninfo[x][0].endswith(SAME) and x.eng.ninfo[x][1]:
            todo.extend(x.eng.ninfo[x][1][0])
        else:
            out.add(x)
    return out


def dev(atoms):
    return {x for x in see(atoms) if x.k == "P" and is_dev(x)}


def path(x):
    return gchain(x)


def range_of(atoms):
    """(start, end) of a range value; None for an open side."""
    lo, hi, ok = set(), set(), False
    for x in see(atoms):
        if x.k == "O" and x.b == "adt" and x.c[0].startswith("std::ops::Range"):
            n = x.c[0].rsplit("::", 1)[-1]
            ok = True
            c = {k: v.v for k, v in x.cells.items()}
            if n == "RangeTo":
                hi |= c.get(0, set())
            elif n == "RangeFrom":
                lo |= c.get(0, set())
            elif n == "Range":
                lo |= c.get(0, set())
                hi |= c.get(1, set())
            else:
                return None
        elif x.k != "U":
            return None
    return (see(lo), see(hi)) if ok else None


class Scen:
    def __init__(self, level, rule, form, found):
        self.level, self.rule, self.found = level, rule, found
        name, mk, yp, kinds, at, depth = level
        val = T[0] if form == "text" else list(T)
        self.texts = {T[0]} if form == "text" else set(T)
        doc = mk({rule: val})
        base = c31.hook_of("")
        self.matches = []

        def hook(c):
            if c.n == MATCH and match_spec(c) & set(T):
                return {c.eng.TRUE if found else c.eng.FALSE}
            if c.n.endswith("str>::is_char_boundary"):
                return {c.eng.TRUE}
            return base(c)
        kw = dict(hook=hook, disc=c31.disc, config={"update_fields": True, "enum_derive": (c31.DERIVE, "None")}, keys=True)
        self.run = patch_run(doc, **kw)
        self.eng = self.run.eng
        none = {pkey(e.f, e.bb) for e in effects(patch_run(c31.prune(doc, yp + "/" + rule), **kw).eng)}
        self.effects = [e for e in effects(self.eng) if pkey(e.f, e.bb) not in none]



    def base_of(self, x):
        while x.k == "P":
            x = x.a
        return x

    def slices(self, atoms, own):
        """Parts of the own name: [(start, end)] with sets of positions; None for a value that is something else."""
        out = []
        for x in see(atoms):
            if x.k == "P" and is_dev(x):
                if not own(x):
                    return None
                out.append((set(), set()))
                continue
            if x.k == "U" or x.k == "O" and x.b == "adt" and x.c[0] == OPTION:
                vs = set().union(*[c.v for c in x.cells.values()], set()) if x.k == "O" else set()
                r = self.slices(vs, own) if vs else []
                if r is None:
                    return None
                out += r
                continue
            b = self.base_of(x)
            if b.k != "N":
                return None
            n, a = self.eng.ninfo[b][:2]
            if n.endswith(PARTS) and len(a) > 1:
                d = dev(a[0])
                r = range_of(a[1])
                if not d or not all(own(y) for y in d) or r is None:
                    return None
                out.append(r)
            elif n.endswith("::split_at") and x.k == "P":
                d = dev(a[0])
                if not d or not all(own(y) for y in d):
                    return None
                out.append((set(), see(a[1])) if chain_of(x)[-1:] in (["0"], ["/0"]) else (see(a[1]), set()))
            elif n.endswith("String::split_off"):
                d = dev(a[0])
                if not d or not all(own(y) for y in d):
                    return None
                out.append((see(a[1]), set()))
            elif n.startswith("std::string::String::") and any(own(y) for y in dev(a[0])):
                continue  # the name as changed before
            else:
                return None
        return out

    def bounds(self, own):
        """Positions of the own name at which the pattern was asked about: (before them, from them on)"""
        lo, hi, calls = set(), set(), []
        for f in self.eng.frames:
            for bb, (cal, args, dest) in f.calls.items():
                if cal["n"] == MATCH and len(args) > 1:
                    sl = self.slices(args[1], own)
                    if sl is None:
                        continue
                    c = FakeCall(args)
                    if not match_spec(c) & set(T):
                        continue
                    for a, b in sl:
                        if zero(a) and b:
                            lo |= b
                        elif a and not b:
                            hi |= a
                    calls.append((f, bb, match_spec(c)))
        return lo, hi, calls

    def nothing(self, n, start, own):
        """Positions that cut nothing off."""
        out = set()
        for x in n:
            if start and x.k == "K" and x.b == 0:
                out.add(x)
            if not start and x.k == "N" and self.eng.ninfo[x][0].endswith("::len") and dev(self.eng.ninfo[x][1][0]) and all(own(y) for y in dev(self.eng.ninfo[x][1][0])):
                out.add(x)
        return out

    def again(self, e):
        """Does the effect come again for the same name?"""
        f, bb = e.f, e.bb
        while f is not None:
            avoid = set()
            for b, (cal, args, dest) in f.calls.items():
                if cal["n"].rsplit("::", 1)[-1] in TAKE and not dest[1] and dest[0] in f.cells:
                    p = payload(self.eng, f.cells[dest[0]].v)
                    if any(x.k in "YKS" or x.k == "P" and is_dev(x) for x in p):
                        avoid.add(b)
            if bb in local_reach(f, [bb], avoid):
                return f, bb
            if f.key is None or f.parent is None or f.key[1]:
                return None
            f, bb = f.parent, f.key[0]
        return None

    def handout(self, e):
        """Where the element is handed out the effect is on."""
        f, bb = e.f, e.bb
        while f is not None:
            for b, (cal, args, dest) in f.calls.items():
                if cal["n"].rsplit("::", 1)[-1] in TAKE and not dest[1] and dest[0] in f.cells and any(x.k == "P" and is_dev(x) for x in payload(self.eng, f.cells[dest[0]].v)) and bb in local_reach(f, [b]) and b in local_reach(f, [bb]):
                    return f, b
            if f.key is None or f.parent is None:
                return None
            if f.key[1]:
                return f.parent, f.key[0]
            f, bb = f.parent, f.key[0]
        return None

    def fresh(self):
        """Points that hand out rules or given texts."""
        return {(f, b, 0) for f in self.eng.frames for b, (cal, args, dest) in f.calls.items() if cal["n"].rsplit("::", 1)[-1] in TAKE and not dest[1] and dest[0] in f.cells
                and any(x.k in "YKS" for x in payload(self.eng, f.cells[dest[0]].v))}

    def texts_of(self, x, own, st=()):
        """What a text is put together from, in order: the own name (True) and constants; ANY: in an order not known; SELF: itself."""
        if x in st:
            return SELF
        st = st + (x,)
        if x.k == "U":
            return SELF
        if x.k == "K":
            return [] if x.b == "" else [x.b]
        if x.k == "P" and is_dev(x):
            return [True] if own(x) else None
        if x.k == "R":
            return self.join([x.cell.v], own, st)
        if x.k == "O" and x.b == "adt" and x.c[0] == OPTION:
            return self.join([c.v for c in x.cells.values()], own, st)
        if x.k == "O" and x.b in ("array", "tuple", "adt"):
            return self.join([x.cells[k].v for k in sorted(x.cells, key=str)], own, st)
        if x.k == "O" and x.b == "str":
            return self.mixed([c.v for c in x.cells.values()], own, st)
        if x.k != "N":
            return None
        n, a = self.eng.ninfo[x][:2]
        if n.endswith(("String::new", "String::with_capacity")):
            return []
        if n.endswith(PUSH):
            grown = self.pushes(a[0]) - {x}
            if grown:
                return self.mixed([self.eng.ninfo[y][1][-1] for y in grown | {x}] + [{y for y in see(a[0]) if not self.is_push(y)}], own, st)
            return self.join([a[0], a[1]], own, st)
        if n.endswith("String::insert_str"):
            if not zero(see(a[1])):
                return None
            return self.join([a[2], a[0]], own, st)
        if n.endswith("::format"):
            return self.join(a, own, st)
        if "fmt::Arguments" in n:
            if len(a) < 2:
                return self.join(a, own, st)
            ts = [y.b for y in see(a[0]) if y.k == "K" and isinstance(y.b, (tuple, bytes, list))]
            arr = [y for y in see(a[1]) if y.k == "O" and y.b == "array"]
            if len(ts) != 1 or len(arr) != 1:
                return self.mixed(a[1:], own, st)
            out, i, j, t = [], 0, 0, ts[0]
            while i < len(t) and t[i]:
                if t[i] < 128:
                    out.append("".join(map(chr, t[i + 1:i + 1 + t[i]])))
                    i += 1 + t[i]
                    continue
                if t[i] != 192 or j not in arr[0].cells:
                    return self.mixed(a[1:], own, st)
                p = self.join([arr[0].cells[j].v], own, st)
                if p is None or p is ANY:
                    return p
                out += p
                i, j = i + 1, j + 1
            return out
        if n.endswith(("::concat", "::join", "from_iter", "::collect")):
            return self.mixed(a[:1], own, st)
        if "fmt::rt::Argument" in n or n.endswith(SAME):
            return self.join(a[:1], own, st)
        return None

    def is_push(self, x):
        return x.k == "N" and self.eng.ninfo[x][0].endswith(PUSH)

    def pushes(self, atoms):
        """All the texts added to the buffer on the way."""
        out, todo = set(), list(see(atoms))
        while todo:
            x = todo.pop()
            if self.is_push(x) and x not in out:
                out.add(x)
                todo.extend(see(self.eng.ninfo[x][1][0]))
        return out

    def mixed(self, sets, own, st):
        found = set()
        for y in set().union(*[see(v) for v in sets], set()):
            p = self.texts_of(y, own, st)
            if p is None:
                return None
            if p is ANY:
                return ANY
            if p is not SELF:
                found |= set(p)
        # the own name as it becomes is made of the own name
        return (ANY if found & self.texts and True in found else sorted(found, key=str)) if found <= self.texts | {True} else None

    def join(self, sets, own, st):
        out = []
        for s in sets:
            s = set(s)
            # the own name, also as changed later on
            if any(y.k == "P" and is_dev(y) and own(y) for y in see(s)):
                s = {y for y in see(s) if y.k == "P"}
            # a text before something was added to it
            s -= {y for z in s if self.is_push(z) and z not in st for y in see(self.eng.ninfo[z][1][0]) if not self.is_push(y)}
            ps = [p for p in (self.texts_of(y, own, st) for y in s) if p is not SELF]
            if any(p is None for p in ps):
                return None
            if not ps:
                continue
            if ANY in ps:
                return ANY
            ps = [p for p in ps if p] or ps
            if any(p != ps[0] for p in ps):
                # one of several constants given
                if all(len(p) == 1 and p[0] in self.texts for p in ps):
                    ps = [ps[0]]
                else:
                    return None
            out += ps[0]
        return out


class FakeCall:
    def __init__(self, args):
        self.args = args


ANY, SELF = ("any",), ("self",)
PUSH = ("String::push_str", "AddAssign::add_assign", "Add::add", "String::push")
PARTS = ("Index::index", "IndexMut::index_mut", "str>::get", "str>::get_unchecked", "String::get")


def zero(s):
    return all(x.k == "K" and x.b == 0 for x in s)


def norm(e):
    """(owner kind, attribute, name atom predicate) of an effect"""
    out = set()
    for t in e.targets:
        o = owner_of(t)
        p = [k for k in path(t)]
        if e.kind == "set" and e.field and p[-1:] != [e.field]:
            out.add((o, e.field))
        else:
            out.add((o, p[-1] if p else "?"))
    return out


def judge(rep, s, key):
    name, mk, yp, kinds, at, depth = s.level
    want = {(k, a.split(".")[0]) for k in kinds for a in NAMES[k] if s.rule in STRIP or k != "Cluster"}
    done = {}
    start = s.rule == "_strip"
    for e in s.effects:
        ns = norm(e)
        where = "%s (%s)" % (e.f.n, e.f.loc(e.bb))
        bad = ns - want
        if bad:
            if not (e.kind == "call" and e.field in ("take", "replace")):
                rep.violation(key + "/else", "%s changes %s, which the rule does not concern: %s" % (key, ", ".join("%s.%s" % b for b in sorted(bad)), where))
            continue
        if e.kind == "call" and e.field == "take":
            continue  # and put back
        o, attr = "/".join(sorted({x[0] for x in ns})), "/".join(sorted({x[1] for x in ns}))

        def own(y, ns=ns):
            return (owner_of(y), (path(y) or ("",))[-1]) in ns
        rep.count("effects")
        if s.rule in STRIP:
            cut = cuts(s, e, own)
            if cut is None:
                rep.violation(key + "/cut", "%s: %s.%s is changed otherwise than by taking off its %s: %s" % (key, o, attr, "beginning" if start else "end", where))
                continue
            side, n = cut
            if side == "keep":
                continue
            if side != ("start" if start else "end"):
                rep.violation(key + "/cut", "%s: the %s of %s.%s is taken off: %s" % (key, "end" if start else "beginning", o, attr, where))
                continue
            n = n - s.nothing(n, start, own)
            if not n:
                continue
            if not s.found:
                rep.violation(key + "/unmatched", "%s: %s.%s is changed though the pattern does not match it: %s" % (key, o, attr, where))
                continue
            lo, hi, calls = s.bounds(own)
            b = lo if start else hi
            if not n <= b:
                rep.violation(key + "/cut", "%s: the part taken off %s.%s is not the one the pattern was found to match (its extent is not a position of the name up to which the pattern was tried): %s" % (key, o, attr, where))
                continue
            for f, bb, sp in calls:
                made = [s.eng.ninfo[x][1][0] for x in leaves(f.calls[bb][1][0]) if x.k == "N" and s.eng.ninfo[x][0] in (GLOBNEW, "globset::GlobBuilder::<'a>::new") and s.eng.ninfo[x][1]]
                if not sp <= s.texts or any(y.k != "K" for a in made for y in see(a)):
                    rep.violation(key + "/pattern", "%s: the pattern tried is not the one given (made of %s): %s (%s)" % (key, ", ".join(sorted(sp)), f.n, f.loc(bb)))
            for x in n:
                base = s.base_of(x)
                end = s.eng.ninfo[base][1][-1] if base.k == "N" and "Range" in s.eng.ninfo[base][0] else None
                if end is not None and (not any(own(y) for y in parts(end) if y.k == "P") or any(y.k == "S" or y.k == "K" and y.a == "str" for y in parts(end))):
                    rep.violation(key + "/cut", "%s: only some positions of %s.%s are tried (the last one does not depend on the name alone): %s" % (key, o, attr, where))
                for f in s.eng.frames:
                    for bb, (cal, args, dest) in f.calls.items():
                        if cal["n"].rsplit("::", 1)[-1] in BACK and args and base in leaves(args[0]):
                            rep.violation(key + "/extent", "%s: the positions of a name are tried from its end, so that not the %s part that matches is taken off: %s (%s)" % (key, "shortest" if start else "longest", f.n, f.loc(bb)))
        else:
            t = added(s, e, own)
            if t is None or t is not ANY and not (len(t) == 2 and t[0 if s.rule == "_prefix" else 1] in s.texts and t[1 if s.rule == "_prefix" else 0] is True):
                rep.violation(key + "/text", "%s: %s.%s does not become %s: %s" % (key, o, attr, "the given text followed by the name" if s.rule == "_prefix" else "the name followed by the given text", where))
                continue
        a = s.again(e)
        if a:
            rep.violation(key + "/once", "%s: %s.%s is changed more than once: %s by the loop in %s (%s)" % (key, o, attr, where, a[0].n, a[0].loc(a[1])))
        for x in ns:
            done.setdefault(x, []).append(e)
    if s.found:
        cfg = None
        for (o, attr), es in sorted(done.items()):
            if len(es) < 2:
                continue
            cfg = cfg or Icfg(s.eng)
            fresh = s.fresh()
            for e1 in es:
                h1 = s.handout(e1)
                for e2 in es:
                    h2 = s.handout(e2)
                    if e1 is e2 or h1 is None or h2 is None:
                        continue
                    if h1 == h2:
                        again = (e2.f, e2.bb, 0) in cfg.reach([(e1.f, e1.bb, 1)], avoid=fresh | {(h1[0], h1[1], 0)})
                    else:
                        again = (h2[0], h2[1], 0) in cfg.reach([(h1[0], h1[1], 0)], avoid=fresh)
                    if again:
                        rep.violation(key + "/once", "%s: %s.%s is changed by %s (%s) and then again by %s (%s)" % (key, o, attr, e1.f.n, e1.f.loc(e1.bb), e2.f.n, e2.f.loc(e2.bb)))

        for o, a in sorted(want - set(done)):
            rep.violation(key + "/missing", "%s leaves %s.%s unchanged" % (key, o, a))
    # the matcher is a plain pattern: the case of the letters counts, nothing separates
    for f in s.eng.frames:
        for bb, (cal, args, dest) in f.calls.items():
            n = cal["n"].rsplit("::", 1)[-1]
            if "globset::GlobBuilder" in cal["n"] and n in ("case_insensitive", "literal_separator") and len(args) > 1 and any(x is not s.eng.FALSE for x in args[1]):
                rep.violation(key + "/pattern", key + ": " + "patterns are compared with `%s`: %s (%s)" % (n, f.n, f.loc(bb)))
    rep.ok(key)
    rep.count("runs")


def cuts(s, e, own):
    """("start" or "end" or "keep", position) of what an effect takes off"""
    if e.kind == "call":
        a = [see(x) for x in e.args[1:]]
        if e.field == "drain" or e.field == "replace_range" and all(x.k == "K" and x.b == "" for x in a[1]):
            r = range_of(e.args[1])
            if r is None:
                return None
            if zero(r[0]) and r[1]:
                return "start", r[1]
            if r[0] and not r[1]:
                return "end", r[0]
            return None
        if e.field == "truncate":
            return "end", a[0]
        if e.field == "split_off":
            # the remainder is thrown away, or takes the place of the name
            d = e.f.calls[e.bb][2]
            used = any(x.kind == "set" and any(y.k == "N" and s.eng.ninfo[y][0].endswith("split_off") for y in see(x.vals)) for x in s.effects)
            return ("start" if used else "end"), a[0]
        if e.field in ("replace", "clone_into", "clone_from", "insert"):
            return value(s, set().union(*a), own)
        if e.field == "take":
            return "keep", set()
        return None
    return value(s, e.vals, own)


def value(s, vals, own):
    sl = s.slices(vals, own)
    if sl is None:
        return None
    sides = set()
    pos = set()
    for lo, hi in sl:
        if not lo and not hi:
            continue
        if zero(lo) and hi:
            sides.add("end")
            pos |= hi
        elif lo and not hi:
            sides.add("start")
            pos |= lo
        else:
            return None
    if len(sides) > 1:
        return None
    return (sides.pop(), pos) if sides else ("keep", set())


def added(s, e, own):
    if e.kind == "call":
        if e.field in ("push_str", "add_assign", "extend"):
            t = s.join([e.args[1]], own, ())
            return t if t is None or t is ANY else [True] + t
        if e.field == "insert_str":
            t = s.join([e.args[2]], own, ())
            return (t if t is None or t is ANY else t + [True]) if zero(see(e.args[1])) else None
        if e.field in ("replace", "clone_into", "clone_from", "insert"):
            return s.join([e.args[1]], own, ())
        if e.field == "take":
            return ANY
        return None
    return s.join([e.vals], own, ())


def check(rep):
    for lv in LEVELS:
        for rule in STRIP + ADD:
            for form in ("text", "list") if rule in STRIP else ("text",):
                for found in (True, False) if rule in STRIP else (True,):
                    s = Scen(lv, rule, form, found)
                    judge(rep, s, "%s (%s) of a %s" % (rule, form, lv[0]))
                    rep.count("frames", len(s.eng.frames))
    # a name is never passed over
    c31.run(rep, "", tuple(r + " of" for r in STRIP + ADD))
    rep.rule = ("each effect of `_strip`/`_strip_end`/`_prefix`/`_suffix` concerns the name attributes of the elements it is for, each of them; what is taken off is bounded by a position of the same name for which the "
                "pattern itself was asked about the part in question, searched from the beginning; what is put on is the given text, on the side the rule names, once")
    return ("One abstract document per rule, level and form, interpreted from patch::process_reader with the pattern matching and not matching; the rule's effects are those that vanish when the rule is removed.")


ASSUME = ["globset matches as documented", "the optional names (displayName, alternateRegister, ..) are present"]
