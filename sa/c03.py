"""Runs are repeatable: nothing that differs from run to run gets into an output."""
import re
from core import *

STREAM = re.compile(r"(?<![a-z_])(?:hash_map|hash_set|hashbrown::\w+|hashbrown|dashmap::\w+)::(?:\w+::)*(?:Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Difference|Intersection|Union|SymmetricDifference|RawIter)\b"
                    r"|std::fs::ReadDir\b|IterBridge\b|mpsc::(?:Iter|IntoIter|TryIter)\b|walkdir::\w+")
COLL = re.compile(r"(?<!Linked)(?<!\w)(?:HashMap|HashSet|DashMap|DashSet)<")
KEYED = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*(?:\w+::)*(?:HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap|DashMap|DashSet)<")
WRAP = re.compile(r"^(?:std::result::Result|std::option::Option)<(.*)$")

NOW = re.compile(r"(?:SystemTime|Instant|OffsetDateTime|Utc|Local|Zoned|Timestamp)(?:::<[^>]*>)?::now|::now_(?:utc|local)$|std::env::(?:var|var_os|vars|vars_os|temp_dir)$|std::process::id$|std::thread::current$|ThreadId|"
                 r"(?:^|::)rand(?:_core|_chacha)?::|fastrand::|getrandom::|uuid::|tempfile::|RandomState as .*(?:hash_one|build_hasher)|RandomState::|BuildHasher::(?:hash_one|build_hasher)|new_pointer|available_parallelism|current_num_threads|current_thread_index|"
                 r"mpsc::Receiver<.*>::(?:recv|try_recv|recv_timeout)|mpsc::Receiver::<T>::(?:recv|try_recv|recv_timeout)")
FREE = {"count", "any", "all", "sum", "product", "min", "max", "len", "is_empty", "contains", "drop", "drop_in_place", "size_hint", "is_subset", "is_superset", "is_disjoint", "eq", "ne", "by_ref", "as_ref", "clone", "into_iter", "into_par_iter",
        "sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "sorted_unstable_by", "sorted_unstable_by_key", "sorted_by_cached_key", "branch", "from_residual", "from_output", "new", "with_context", "context", "map_err"}
ORDER = {"enumerate", "take", "skip", "step_by", "zip", "scan", "map_while", "take_while", "skip_while", "peekable", "interleave", "tuple_windows", "tuples", "chunks", "dedup", "dedup_by", "dedup_by_key", "coalesce", "intersperse", "unique_by"}
COLLECT = {"collect", "from_iter", "collect_vec", "from_par_iter", "partition", "try_collect", "unzip", "extend", "par_extend", "collect_into"}
CONSUME = {"extend", "from_iter", "chain", "zip", "join", "new_debug", "append", "to_string", "serialize", "from"}
RACE = re.compile(r"(?:Mutex|RwLock)(?:<|::).*(?:lock|write)$|std::sync::atomic::Atomic.*::(?:fetch_\w+|store|swap|compare_exchange\w*)$|mpsc::\w*Sender.*::send$")
OKMUT = ("Config::update",)  # one option by its key
IDENT = {"clone", "cmp", "partial_cmp", "deref", "as_str", "as_ref", "to_owned", "to_string", "to_string_lossy", "reverse", "borrow", "copied", "cloned", "as_bytes", "call", "call_mut", "call_once"}
SORTS = re.compile(r"::(?:par_)?sort(?:_unstable|_floats)?(?:_by|_by_key|_by_cached_key)?$")


class Prog:
    def __init__(self, facts):
        self.T, self.I = facts["types"], facts["insts"]

    def t(self, ty, seen=()):
        """All the types mentioned in a type."""
        out, todo, seen = [], [ty], set()
        while todo:
            i = todo.pop()
            if i in seen or not isinstance(i, int):
                continue
            seen.add(i)
            t = self.T[i]
            out.append(t)
            for k in ("a", "t", "e", "o", "ts"):
                v = t.get(k)
                if isinstance(v, int) and not isinstance(v, bool):
                    todo.append(v)
                elif isinstance(v, list):
                    todo += [y for y in v if isinstance(y, int)]
        return out

    def text(self, ty):
        return " ".join(x["t"] if isinstance(x.get("t"), str) else x.get("n", "") for x in self.t(ty))

    def stream(self, ty):
        return bool(STREAM.search(self.text(ty)))

    def coll(self, ty):
        return bool(COLL.search(self.text(ty)))

    def name(self, ty):
        while True:
            t = self.T[ty]
            if t["k"] == "ref":
                ty = t["t"] if isinstance(t.get("t"), int) else t["a"][0]
            elif t["k"] == "adt" and t["n"] in ("std::result::Result", "std::option::Option"):
                ty = t["a"][0]
            else:
                return t.get("t", t.get("n", "")) if isinstance(t.get("t"), str) else t.get("n", "")

    def mut(self, ty):
        t = self.T[ty]
        return t["k"] == "ref" and bool(t.get("m"))


def opty(o):
    return o[1][2] if o[0] in "mc" else o[2]


def succs(t):
    if t is None:
        return ()
    k = t[0]
    if k == "goto":
        return (t[1],)
    if k == "switch":
        return tuple(x for _, x in t[2]) + ((t[3],) if t[3] is not None else ())
    if k in ("drop", "assert"):
        return (t[1],) if t[1] is not None else ()
    if k == "call":
        return (t[4],) if t[4] is not None else ()
    return ()


def reach(blocks, starts, avoid=()):
    seen, todo = set(), [s for s in starts if s is not None]
    while todo:
        b = todo.pop()
        if b in seen or b in avoid or blocks[b] is None:
            continue
        seen.add(b)
        todo += succs(blocks[b][1])
    return seen


def last(cal):
    return cal.get("n", "").rsplit("::", 1)[-1]


def places(st):
    """Places read by a statement's right side."""
    out = []

    def walk(x):
        if isinstance(x, list):
            if len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], list) and isinstance(x[2], int):
                out.append(x)
                return
            for y in x:
                walk(y)
    walk(st)
    return out


class Fn:
    def __init__(self, prog, inst):
        self.p, self.i = prog, inst
        self.b = inst["blocks"]
        self.L = inst["locals"]

    def loc(self, bb):
        t = self.b[bb]
        for st in reversed(t[0]):
            return "%s:%s" % (st[2][0], st[2][1])
        return "%s:%s" % tuple(self.i["loc"][:2]) if self.i.get("loc") else "?"

    def where(self, bb):
        return "%s %s" % (self.i["n"], self.loc(bb))

    def calls(self):
        for bb, b in enumerate(self.b):
            if b is not None and b[1] is not None and b[1][0] == "call" and isinstance(b[1][1], dict):
                yield bb, b[1][1], b[1][2], b[1][3]

    def free_body(self, inside, elem, also=()):
        """Do the blocks change something made outside of them in a way that depends on their order? -> problem or None"""
        blocks, p = self.b, self.p
        outs = set()
        for bb, b in enumerate(blocks):
            if b is None or bb in inside or bb in also:
                continue
            for st in b[0]:
                outs.add(st[0][0])
            if b[1][0] == "call":
                outs.add(b[1][3][0])
        outs |= set(range(1, self.i["argc"] + 1))
        taint = {l for l in outs if p.mut(self.L[l])}
        todo = sorted(inside | set(also))
        self.fresh = set(range(len(self.L))) - outs
        made = self.derived({elem}, todo)
        for _ in range(8):
            n = len(taint)
            for bb in todo:
                for dest, rv, _loc in blocks[bb][0]:
                    if dest[1]:
                        continue
                    if rv[0] == "ref" and rv[2] and (rv[1][0] in outs or rv[1][0] in taint):
                        taint.add(dest[0])
                    elif rv[0] in ("use", "cast") and any(q[0] in taint or q[0] in outs for q in places(rv)) and p.mut(self.L[dest[0]]):
                        taint.add(dest[0])
                t = blocks[bb][1]
                if t[0] == "call" and not t[3][1] and p.mut(self.L[t[3][0]]) and any(o[0] in "mc" and o[1][0] in taint for o in t[2]):
                    taint.add(t[3][0])
            if len(taint) == n:
                break
        for bb in todo:
            for dest, rv, loc in blocks[bb][0]:
                through = dest[1] and dest[1][0] == ["*"] or dest[1] and dest[1][0] == "*"
                if not (dest[0] in outs and not through or dest[0] in taint and dest[1]):
                    continue
                if rv[0] == "use" and rv[1][0] == "k" or rv[0] == "agg" and rv[1][0] in ("tuple", "adt") and not rv[2]:
                    continue
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("Result") and rv[1][2] == 1:
                    continue  # an error
                if rv[0] == "bin" and rv[1] in ("Add", "AddUnchecked", "AddWithOverflow", "BitOr", "BitAnd", "BitXor", "Mul"):
                    continue
                if rv[0] == "use" and p.T[self.L[dest[0]]]["k"] == "int" and rv[1][0] in "mc" and self.sum_of(rv[1][1][0], dest[0]):
                    continue
                if (bb in inside or dest[0] == 0) and any(q[0] in made for q in places(rv)):
                    return "%s:%s keeps what one of them gives" % (loc[0], loc[1])
            t = blocks[bb][1]
            if t[0] != "call" or not isinstance(t[1], dict):
                continue
            cal, args, dest = t[1], t[2], t[3]
            n = last(cal)
            if cal["n"].endswith("::_print"):
                return "%s prints for each of them" % self.loc(bb)
            if dest[0] in outs and not dest[1] and n not in ("from_residual", "next") and bb in inside and self.L[dest[0]] != self.unit() and dest[0] in made:
                return "%s keeps what one of them gives" % self.loc(bb)
            if dest[0] == 0 and n not in ("from_residual",) and bb not in inside and any(o[0] in "mc" and o[1][0] in made for o in args):
                return "%s gives back what one of them gives" % self.loc(bb)
            for o in args:
                if o[0] not in "mc" or o[1][0] not in taint or not p.mut(opty(o)):
                    continue
                s = p.name(opty(o))
                if KEYED.search(s) or STREAM.search(s) or n in ("deref_mut", "by_ref", "as_mut", "borrow_mut", "index_mut", "iter_mut", "get_mut", "entry", "or_insert", "or_default", "or_insert_with"):
                    continue
                if any((cal.get("res") or cal["n"]).endswith(x) or cal["n"].endswith(x) for x in OKMUT):
                    continue
                if not any(q is not o and q[0] in "mc" and q[1][0] in made for q in args):
                    continue
                return "%s changes something (%s) for each of them in turn" % (self.loc(bb), n)
        return None

    def derived(self, seeds, todo):
        """Locals that hold something made from the seeds."""
        out, refs = set(seeds), {}
        for _ in range(12):
            n = len(out)
            for bb in todo:
                for d, rv, _l in self.b[bb][0]:
                    if rv[0] == "ref" and not d[1]:
                        refs.setdefault(d[0], set()).add(rv[1][0])
                    if d[0] not in out and any(q[0] in out for q in places(rv)):
                        out.add(d[0])
                t = self.b[bb][1]
                if t[0] == "call" and any(o[0] in "mc" and o[1][0] in out for o in t[2]):
                    out.add(t[3][0])
                    for o in t[2]:
                        if o[0] in "mc" and self.p.mut(opty(o)) and o[1][0] not in out:
                            out |= {x for x in refs.get(o[1][0], ()) if x > self.i["argc"]} & self.fresh
            if n == len(out):
                break
        return out

    fresh = frozenset()

    def unit(self):
        for i, t in enumerate(self.p.T):
            if t["k"] == "tuple" and not (t.get("a") or t.get("ts") or t.get("e")):
                return i
        return -1

    def sum_of(self, src, dst):
        for b in self.b:
            if b is None:
                continue
            for d, rv, _l in b[0]:
                if d[0] == src and rv[0] == "bin" and rv[1].startswith(("Add", "Mul", "BitOr")) and any(q[0] == dst for q in places(rv)):
                    return True
        return False

    def sorted_first(self, bb, dest, pairs):
        """Is the list made at bb sorted before anything else is done with it?"""
        blocks, p = self.b, self.p
        own = {dest[0]}   # the list itself
        refs = set()
        for _ in range(8):
            for b in blocks:
                if b is None:
                    continue
                for d, rv, _l in b[0]:
                    if d[1]:
                        continue
                    if rv[0] == "use" and rv[1][0] in "mc" and rv[1][1][0] in own:
                        own.add(d[0])
                    elif rv[0] == "ref" and rv[2] and rv[1][0] in own | refs or rv[0] in ("use", "cast") and any(q[0] in refs for q in places(rv)):
                        refs.add(d[0])
                t = b[1]
                if t[0] == "call" and isinstance(t[1], dict):
                    n = last(t[1])
                    if t[2] and t[2][0][0] in "mc":
                        if n in ("deref_mut", "as_mut_slice", "as_mut") and t[2][0][1][0] in refs:
                            refs.add(t[3][0])
                        elif n in ("branch", "unwrap", "expect", "into", "map_err", "with_context", "context", "ok", "unwrap_or_default") and t[2][0][1][0] in own:
                            own.add(t[3][0])
        sorts = {b for b, cal, args, d in self.calls() if SORTS.search(cal["n"]) and args and args[0][0] in "mc" and args[0][1][0] in refs and (len(args) < 2 or total(self, args[1], pairs))}
        # a list that goes into a set or map after all
        after = reach(blocks, succs(blocks[bb][1]), avoid=sorts)
        for b in after:
            for d, rv, _l in blocks[b][0]:
                used = [q for q in places(rv) if q[0] in own | refs]
                if used and d[0] not in own | refs and rv[0] != "disc" and d[0] != 0 and not (rv[0] == "use" and self.p.T[d[2]]["k"] != "adt"):
                    return "%s" % self.where(b)
                if used and d[0] == 0:
                    return self.where(b)
            t = blocks[b][1]
            if t[0] == "call":
                n = last(t[1]) if isinstance(t[1], dict) else ""
                if any(o[0] in "mc" and o[1][0] in own | refs for o in t[2]) and t[3][0] not in own | refs and n not in ("from_residual", "len", "is_empty", "contains", "drop"):
                    return self.where(b)
        return None


def closures(p, args):
    for o in args:
        ty = opty(o)
        for t in p.t(ty):
            if t["k"] == "closure":
                for key in (t.get("i"), t.get("m"), t.get("inst"), t.get("n"), t.get("t")):
                    if key in p.I:
                        yield p.I[key]


def clo_of(f, o):
    """Instances of the closure passed as operand o."""
    out = []
    if o[0] in "mc":
        for b in f.b:
            if b is None:
                continue
            for d, rv, _l in b[0]:
                if d[0] == o[1][0] and not d[1] and rv[0] == "agg" and rv[1][0] == "closure":
                    k = rv[1][1]
                    if k in f.p.I:
                        out.append(f.p.I[k])
    return out




def scan(rep, facts):
    p = Prog(facts)
    n = 0
    for key, inst in p.I.items():
        if not inst or not inst.get("blocks"):
            continue
        f = Fn(p, inst)
        rep.count("functions")
        for bb, cal, args, dest in f.calls():
            rep.count("call sites")
            name, res = cal.get("n", ""), cal.get("res") or cal.get("n", "")
            m = NOW.search(res) or NOW.search(name)
            if m:
                rep.violation("source/%s/%s" % (inst["n"], name), "%s: %s gives something else in every run" % (f.where(bb), name))
                continue
            nm = last(cal)
            if "rayon" in name or cal.get("kr", "").startswith("rayon"):
                n += 1
                if nm in ("find_any", "position_any", "find_map_any", "reduce", "reduce_with", "try_reduce", "par_bridge_any", "fold_with"):
                    rep.violation("race/%s/%s" % (inst["n"], nm), "%s: the result of %s depends on which thread is first" % (f.where(bb), nm))
                for o in args:
                    for c in clo_of(f, o):
                        w = races(p, c)
                        rep.require(not w, "race/%s" % inst["n"], "%s: the threads share %s" % (f.where(bb), w))
            sa = [o for o in args if p.stream(opty(o))]
            if sa:
                n += 1
                rep.count("unordered iterations")
                w = stream_call(p, f, bb, cal, args, dest, nm)
                rep.require(not w, "order/%s/%s" % (inst["n"], nm), "%s: the order of a hash collection (directory, thread) matters: %s" % (f.where(bb), w))
            elif nm in CONSUME:
                tys = [opty(o) for o in args] + [a for a in cal.get("a", []) if isinstance(a, int)]
                if any(p.coll(t) for t in tys):
                    n += 1
                    rep.count("unordered iterations")
                    self_ = p.name(opty(args[0])) if args else ""
                    if nm == "from" or KEYED.search(self_) and nm in ("extend", "append") or nm in ("from_iter",) and KEYED.search(p.name(dest[2])):
                        continue
                    if not any(COLL.search(p.name(opty(o))) for o in args[0 if nm == "new_debug" else 1 if len(args) > 1 else 0:]) and nm not in ("new_debug",):
                        continue
                    rep.violation("order/%s/%s" % (inst["n"], nm), "%s: the order of a hash collection matters: it is given to %s" % (f.where(bb), nm))
    return n


def total(f, o, pairs):
    """Does the closure compare whole elements (for entries of a map: the keys)?"""
    cs = clo_of(f, o)
    if not cs:
        return True  # a function such as Ord::cmp
    for c in cs:
        g = Fn(f.p, c)
        for bb, cal, args, dest in g.calls():
            if last(cal) not in IDENT:
                return False
        ps = set(range(2, c["argc"] + 1))
        via = {p: set() for p in ps}
        alias = {p: p for p in ps}
        for _ in range(6):
            for b in c["blocks"]:
                if b is None:
                    continue
                for d, rv, _l in b[0]:
                    for q in places(rv):
                        if q[0] in alias:
                            fs = [e[1] for e in q[1] if isinstance(e, list) and e and e[0] == "f"]
                            if fs:
                                via[alias[q[0]]].add(fs[0])
                            elif not d[1]:
                                alias.setdefault(d[0], alias[q[0]])
        for p, fs in via.items():
            if fs - ({"0"} if pairs else set()):
                return False
    return True


def races(p, inst, seen=None):
    seen = set() if seen is None else seen
    if id(inst) in seen:
        return None
    seen.add(id(inst))
    g = Fn(p, inst)
    for bb, cal, args, dest in g.calls():
        if RACE.search(cal.get("res") or cal["n"]) or RACE.search(cal["n"]):
            return "%s (%s)" % (cal["n"], g.where(bb))
        k = cal.get("inst")
        if k in p.I and p.I[k] and p.I[k].get("blocks"):
            w = races(p, p.I[k], seen)
            if w:
                return w
        for o in args:
            for c in clo_of(g, o):
                w = races(p, c, seen)
                if w:
                    return w
    return None


def stream_call(p, f, bb, cal, args, dest, nm):
    for o in args:
        for c in clo_of(f, o):
            g = Fn(p, c)
            inside = {i for i, b in enumerate(c["blocks"]) if b is not None}
            if nm not in ("sorted_by", "sorted_by_key", "min_by", "max_by"):
                w = g.free_closure(inside)
                if w:
                    return w
    if nm == "next":
        t = f.b[bb][1]
        sw = f.b[t[4]][1] if t[4] is not None else None
        if sw is None or sw[0] != "switch":
            return "%s takes one of them" % f.where(bb)
        some = [x for v, x in sw[2] if v == 1] or [sw[3]]
        none = [x for v, x in sw[2] if v == 0] or [sw[3]]
        after = reach(f.b, none, avoid={bb})
        body = reach(f.b, some, avoid={bb})
        inside = {b for b in body if bb in reach(f.b, succs(f.b[b][1]))}
        if not inside:
            return "%s takes one of them" % f.where(bb)
        return f.free_body(inside, dest[0], also=body - inside - after)
    if cal.get("inst") in p.I or cal.get("kr") == "svdtools":
        return None  # looked at there
    if p.stream(dest[2]) and nm not in ("collect", "extend"):
        return "%s counts on it" % nm if nm in ORDER else None
    pairs = any(re.search(r"hash_map::(?:Iter|IterMut|IntoIter|Drain)\b", p.text(opty(o))) for o in args)
    if nm.startswith("sorted_") and len(args) > 1 and not total(f, args[1], pairs):
        return "%s does not tell all of them apart" % nm
    if nm in FREE:
        return None
    if nm in COLLECT:
        to = p.name(opty(args[0])) if nm in ("extend", "par_extend", "collect_into") and args else p.name(dest[2])
        if KEYED.search(to) or to in ("()", "usize", "u32", "u64", "bool"):
            return None
        if nm in ("extend", "par_extend", "collect_into"):
            w = f.where(bb)
        else:
            w = f.sorted_first(bb, dest, pairs)
        return "%s makes a list that is used as it is (%s)" % (nm, w) if w else None
    if nm in ("for_each", "try_for_each"):
        return None
    return "%s" % nm


def free_closure(self, inside):
    """The body of a closure called for each element."""
    p = self.p
    w = None
    # what is captured by mutable reference is outside
    blocks = self.b
    taint = set()
    for _ in range(8):
        n = len(taint)
        for bb in inside:
            for d, rv, _l in blocks[bb][0]:
                if d[1]:
                    continue
                if rv[0] == "ref" and rv[2] and (rv[1][0] == 1 or rv[1][0] in taint) or rv[0] in ("use", "cast") and p.mut(self.L[d[0]]) and any(q[0] in taint or q[0] == 1 for q in places(rv)):
                    taint.add(d[0])
            t = blocks[bb][1]
            if t[0] == "call" and not t[3][1] and p.mut(self.L[t[3][0]]) and any(o[0] in "mc" and o[1][0] in taint for o in t[2]):
                taint.add(t[3][0])
        if n == len(taint):
            break
    self.fresh = set(range(self.i["argc"] + 1, len(self.L)))
    made = self.derived(set(range(2, self.i["argc"] + 1)), sorted(inside))
    for bb in sorted(inside):
        for d, rv, loc in blocks[bb][0]:
            if not any(q[0] in made for q in places(rv)):
                continue
            if (d[0] in taint or d[0] == 1) and d[1] and not (rv[0] == "use" and rv[1][0] == "k") and not (rv[0] == "bin" and rv[1].startswith(("Add", "BitOr", "BitAnd", "Mul"))):
                return "%s:%s keeps what one of them gives" % (loc[0], loc[1])
        t = blocks[bb][1]
        if t[0] != "call" or not isinstance(t[1], dict):
            continue
        cal = t[1]
        if cal["n"].endswith("::_print"):
            return "%s prints for each of them" % self.loc(bb)
        for o in t[2]:
            if o[0] in "mc" and o[1][0] in taint and p.mut(opty(o)):
                s, k = p.name(opty(o)), last(cal)
                if KEYED.search(s) or k in ("deref_mut", "as_mut", "by_ref", "get_mut", "entry", "or_default", "or_insert", "or_insert_with"):
                    continue
                if any(cal["n"].endswith(x) or (cal.get("res") or "").endswith(x) for x in OKMUT):
                    continue
                if not any(q is not o and q[0] in "mc" and q[1][0] in made for q in t[2]):
                    continue
                return "%s changes something (%s) for each of them in turn" % (self.loc(bb), k)
    return None


Fn.free_closure = free_closure


def check(rep):
    lib, bin_ = facts()
    for fx in (lib, bin_):
        scan(rep, fx)
    rep.ok("scan")
    return ("every call site of the reachable monomorphic functions: none reads the clock, the environment, random numbers, addresses or thread numbers; every iteration over a hash collection (found by the types of the "
            "iterators), a directory or unordered threads ends in something that does not depend on the order")


ASSUME = ["the libraries used (svd-encoder, liquid, yaml-rust2, serde) are themselves deterministic"]
