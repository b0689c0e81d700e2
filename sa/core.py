"""Shared machinery of the checks: scenario runs over abstract patch documents, effect extraction, provenance,
control-flow queries over the analysed call tree, and reporting."""
import gc
import json
import multiprocessing
import os
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import Engine, OPTION, RESULT, YAML, show  # noqa: E402
from extract import extract, ExtractError, VERIF, REPO  # noqa: E402

gc.disable()

MATCH = "globset::GlobMatcher::is_match"
GLOBNEW = "globset::Glob::new"


class Anchor(Exception):
    """Something the rule is anchored at no longer exists."""


# ---------------------------------------------------------------------------------------------- facts
_F = {}


def facts():
    if not _F:
        l, b, h = extract()
        _F["lib"], _F["bin"], _F["hash"] = l, b, h
    return _F["lib"], _F["bin"]


def fn(facts_, *names):
    """Mangled name of the (unique) function with one of the given public paths."""
    for n in names:
        r = [m for m, i in facts_["insts"].items() if i["n"] == n]
        if len(r) >= 1:
            return r[0]
    raise Anchor("function %s not found" % " / ".join(names))


# ---------------------------------------------------------------------------------------------- provenance
def leaves(atoms, cells=True, limit=200000):
    """Everything an abstract value was computed from: set of Y, K, S atoms (and opaque N/P nodes on the way)."""
    seen = set()
    todo = list(atoms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > limit:
            raise RuntimeError("provenance too large")
        if x.k == "N":
            for a in x.eng.ninfo[x][1]:
                todo.extend(a)
        elif x.k == "P":
            todo.append(x.a)
        elif x.k == "O" and cells:
            for c in x.cells.values():
                todo.extend(c.v)
        elif x.k == "R":
            todo.extend(x.cell.v)
        elif x.k == "Y" and x.a in ("hash", "arr") and x.c:
            for e in x.c:
                todo.extend(e if isinstance(e, tuple) else (e,))
    return seen


def ypaths(atoms):
    return {x.b for x in leaves(atoms) if x.k == "Y"}


def scalar_ypaths(atoms):
    return {x.b for x in leaves(atoms) if x.k == "Y" and x.a not in ("hash", "arr")}


def consts(atoms, ty="str"):
    return {x.b for x in leaves(atoms) if x.k == "K" and x.a == ty}


def rootname(x):
    while x.k == "P":
        x = x.a
    return x


# ---------------------------------------------------------------------------------------------- scenarios
class Run:
    def __init__(self, facts_, root, args, hook=None, disc=None, doc=None, table_keys=None, init=None):
        self.eng = Engine(facts_, hook=hook, disc=disc)
        self.eng.table_keys = table_keys
        if init:
            init(self.eng)
        a = {}
        for k, v in (args or {}).items():
            a[k] = v(self.eng) if callable(v) else v
        if doc is not None:
            self.doc = self.eng.doc(doc)
            a[1] = {self.doc}
        self.fr = self.eng.root(root, a)

    @property
    def ret(self):
        return self.fr.ret.v


def patch_root(F):
    return fn(F, "patch::process_reader")


CONFIG = "svdtools::patch::Config"


def config_arg(eng, root, config):
    """{parameter: value} for the patch configuration of process_reader with the given settings fixed."""
    if not config:
        return {}
    inst = eng.I[root]
    for i in range(inst["argc"]):
        t = eng.T[inst["locals"][i + 1]]
        if t["k"] == "ref":
            t = eng.T[t["a"][0]]
        if t.get("n") == CONFIG:
            o = eng.obj((0, "cfg"), "adt", (CONFIG, 0))
            fields = eng.adts[CONFIG]["v"][0]["f"]
            for k in config:
                if k not in fields:
                    raise Anchor("patch configuration has no setting `%s`" % k)
            for j, k in enumerate(fields):
                v = config.get(k)
                if v is None:
                    a = eng.sym("$config." + k)
                elif isinstance(v, bool):
                    a = eng.TRUE if v else eng.FALSE
                else:
                    adt, var = v
                    a = eng.unitv(adt, eng.variant_index(adt, var))
                eng.join(eng.ocell(o, j), {a})
            return {i: {o}}
    raise Anchor("process_reader takes no patch configuration")


DERIVE = "svdtools::patch::EnumAutoDerive"


def patch_run(doc, hook=None, disc=None, keys=False, init=None, config=None):
    """keys: constant lookup tables iterated by the code are narrowed to the keys the document has."""
    F = facts()[0]
    root = patch_root(F)
    args = {}
    if config:
        e0 = Engine(F)
        i = next(iter(config_arg(e0, root, config)))
        args[i] = lambda eng: config_arg(eng, root, config)[i]
    return Run(F, root, args, hook=hook, disc=disc, doc=doc, table_keys=doc_keys(doc) if keys else None, init=init)


def doc_keys(d):
    if isinstance(d, dict):
        return set(d) | set().union(*[doc_keys(v) for v in d.values()], set())
    if isinstance(d, (list, tuple)):
        return set().union(*[doc_keys(v) for v in d], set())
    return set()


def is_dev(x):
    """Is atom x part of the parsed input device?"""
    r = rootname(x)
    return r.k == "N" and r.eng.ninfo[r][0].startswith("svd_parser::parse")


def match_spec(c):
    """Specs (constant texts) the matcher of an is_match call was built from."""
    return consts(c.args[0]) | {x.c for x in leaves(c.args[0]) if x.k == "Y" and x.a == "str" and x.c}


def match_hook(answers):
    """answers: dict spec -> bool (constant result of matching that spec)."""
    def hook(c):
        if c.n == MATCH:
            sp = match_spec(c)
            for s, v in answers.items():
                if s in sp:
                    return {c.eng.TRUE if v else c.eng.FALSE}
        return None
    return hook


# ---------------------------------------------------------------------------------------------- effects
SVD = ("svd_rs::", "svd_parser::")
ACCESS = re.compile(
    r"(::iter_mut|_mut|::by_ref|::next|::next_back|::find|::any|::all|::position|::nth|::last|::find_map|::by_ref|::peekable|::as_mut|::deref_mut|::as_deref_mut|::borrow_mut|::index_mut"
    r"|::get_mut|::first_mut|::last_mut|::as_mut_slice|::into_iter|::iter|::entry|::values_mut|::map|::filter|::try_for_each|::for_each|::fold|::join|::rev|::chain|::once)$")


class Effect:
    __slots__ = ("kind", "targets", "adt", "field", "vals", "f", "bb", "fnname", "args", "idx")

    def __repr__(self):
        return "<%s %s.%s <- %s @%s %s>" % (self.kind, self.adt, self.field, show(self.vals)[:200], self.f.n, self.f.loc(self.bb))


def place_ty(f, o):
    if o[0] == "k":
        return None
    return o[1][2]


def tdesc(eng, ty):
    t = eng.T[ty]
    while t["k"] in ("ref", "ptr"):
        ty = t["a"][0]
        t = eng.T[ty]
    return t


def adtname(eng, ty):
    t = tdesc(eng, ty)
    n = t.get("n", t["k"])
    if n in (OPTION, "std::vec::Vec", "svd_rs::MaybeArray", "std::boxed::Box") and t.get("a"):
        return n.split("::")[-1] + "<" + adtname(eng, t["a"][0]) + ">"
    if t["k"] == "slice" and t.get("a"):
        return "[" + adtname(eng, t["a"][0]) + "]"
    return n


def empty(eng, x):
    """A collection made by the program that never holds an element."""
    while x.k == "R" and len(x.cell.v) == 1:
        x = next(iter(x.cell.v))
    return x.k == "O" and x.b == "vec" and not eng.ocell(x, "elem").v


def effects(eng, only=None):
    """Mutations of the device model (atoms for which `only` holds; default: parts of the parsed input device)."""
    only = only or is_dev
    out = []
    for f in eng.frames:
        for (bb, idx), (bases, adt, field, vals, ty) in f.writes.items():
            tg = {x for x in bases if x.k in ("P", "S", "N") and only(x)}
            if not tg:
                continue
            e = Effect()
            e.kind, e.targets, e.adt, e.field, e.vals, e.f, e.bb, e.idx = "set", tg, adt, field, set(vals), f, bb, idx
            e.fnname, e.args = None, None
            out.append(e)
        for (bb, tag), (cal, args) in f.ext.items():
            n = cal["n"]
            if not args:
                continue
            t = f.body.blocks[bb][1]
            if tag == ():
                ty = place_ty(f, t[2][0]) if t[0] == "call" and t[2] else None
                if ty is None:
                    continue
                T = eng.T[ty]
                if not (T["k"] == "ref" and T.get("m")):
                    continue
                adt = adtname(eng, ty)
            else:
                adt = None
            tg = set()
            for x in args[0]:
                if x.k == "R":
                    # a projected place or a container object
                    for y in x.cell.v:
                        if y.k in ("P", "S", "N") and only(y):
                            tg.add(y)
                elif x.k in ("P", "S", "N") and only(x):
                    tg.add(x)
            if not tg:
                continue
            last = n.rsplit("::", 1)[-1]
            if ACCESS.search(n) and last != "modify_from":
                continue
            if last.startswith("retain"):
                rs = [k.ret.v for (key, m), k in f.kids.items() if key[0] == bb]
                if rs and all(x is eng.TRUE for r in rs for x in r):
                    continue  # keeps every element
            if tag != () and last not in MUTATORS:
                continue
            if last in ("extend", "append", "extend_from_slice") and len(args) > 1 and args[1] and all(empty(eng, x) for x in args[1]):
                continue  # adds no element
            if adt is None:
                adt = "?"
            e = Effect()
            e.kind, e.targets, e.adt, e.field, e.f, e.bb, e.fnname, e.args, e.idx = "call", tg, adt, last, f, bb, n, args, "t"
            e.vals = set()
            for a in args[1:]:
                e.vals |= a
            out.append(e)
    return out


MUTATORS = {"push", "insert", "remove", "retain", "clear", "take", "replace", "extend", "append", "drain", "truncate", "pop", "swap", "sort", "sort_by", "sort_by_key", "get_or_insert_with",
            "modify_from", "push_str", "dedup", "swap_remove", "reverse", "split_off", "extend_from_slice", "retain_mut", "get_or_insert", "insert_str", "replace_range"}


def builder_fields(atoms, prefix=""):
    """Flatten builder objects: {field path: set of values}. Unset fields are absent."""
    out = {}
    for x in atoms:
        if x.k == "R":
            for k, v in builder_fields(x.cell.v, prefix).items():
                out.setdefault(k, set()).update(v)
        elif x.k == "O" and x.b == "builder":
            for k, c in x.cells.items():
                if not isinstance(k, str) or k.startswith("@"):
                    continue
                sub = builder_fields(c.v, prefix + k + ".")
                nb = {y for y in c.v if not (y.k == "O" and y.b == "builder") and not (y.k == "R")}
                for kk, v in sub.items():
                    out.setdefault(kk, set()).update(v)
                if nb:
                    out.setdefault(prefix + k, set()).update(nb)
    return out


# ---------------------------------------------------------------------------------------------- control flow over the call tree
class Icfg:
    """Nodes (frame, block, phase): phase 0 = block up to its terminator, 1 = after the call returned."""

    def __init__(self, eng, bypass=False):
        self.eng = eng
        self.kids = {}
        self.bypass = bypass
        for f in eng.frames:
            for (key, m), k in f.kids.items():
                self.kids.setdefault((f, key[0]), []).append((k, key[1]))
        self.callers = {}
        for (f, bb), ks in self.kids.items():
            for k, tag in ks:
                self.callers.setdefault(k, set()).add((f, bb))
        self.fsucc = {}
        for f in eng.frames:
            d = {}
            for (b, t) in f.edges:
                d.setdefault(b, []).append(t)
            self.fsucc[f] = d

    def pre(self, f, bb):
        return (f, bb, 0)

    def post(self, f, bb):
        return (f, bb, 1)

    def iscall(self, f, bb):
        return f.body.blocks[bb][1][0] == "call"

    def succ(self, n):
        f, bb, ph = n
        if ph == 0 and self.iscall(f, bb):
            ks = self.kids.get((f, bb), ())
            out = [(k, k.body.entry, 0) for k, tag in ks if k.reached]
            direct = any(tag == () for k, tag in ks)
            if not ks or (not direct and self.bypass):
                out.append((f, bb, 1))
            return out
        out = [(f, t, 0) for t in self.fsucc[f].get(bb, ())]
        if f.body.blocks[bb][1][0] == "ret":
            for (cf, cb) in self.callers.get(f, ()):
                out.append((cf, cb, 1))
                # a library function may call its closure again
                if any(k is f and tag != () for k, tag in self.kids[(cf, cb)]):
                    for k, tag in self.kids[(cf, cb)]:
                        out.append((k, k.body.entry, 0))
        return out

    def reach(self, starts, avoid=(), stop=()):
        """Forward reachable nodes (including starts' successors, not the starts themselves unless in a cycle).
        Nodes in avoid are not entered; nodes in stop are entered but not left. Returns {node: predecessor}."""
        avoid = avoid if callable(avoid) else (lambda n, s=set(avoid): n in s)
        stop = stop if callable(stop) else (lambda n, s=set(stop): n in s)
        seen = {}
        todo = []
        for s in starts:
            for t in self.succ(s):
                if t not in seen and not avoid(t):
                    seen[t] = s
                    todo.append(t)
        while todo:
            n = todo.pop()
            if stop(n):
                continue
            for t in self.succ(n):
                if t not in seen and not avoid(t):
                    seen[t] = n
                    todo.append(t)
        return seen


def err_nodes(eng):
    """Blocks that start failing: they build an Err for the function's result or propagate one with `?`."""
    out = set()
    for f in eng.frames:
        for bb in f.reached:
            sts, t, loc = f.body.blocks[bb]
            if t[0] == "call" and t[1]["n"] == "std::ops::FromResidual::from_residual":
                out.add((f, bb, 0))
            for (dest, rv, _) in sts:
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] == RESULT and rv[1][2] == 1:
                    out.add((f, bb, 0))
    return out


def may_ok(eng, atoms):
    """Can this Result value be Ok?"""
    for x in atoms:
        if x.k == "O" and x.b == "adt":
            if x.c[1] == 0:
                return True
        elif x.k == "R":
            if may_ok(eng, x.cell.v):
                return True
        elif x.k == "K":
            return True
        else:
            vs = eng.disc_of(x, RESULT)
            if vs is None or "Ok" in vs:
                return True
    return False


def may_err(eng, atoms):
    for x in atoms:
        if x.k == "O" and x.b == "adt":
            if x.c[1] == 1:
                return True
        elif x.k == "R":
            if may_err(eng, x.cell.v):
                return True
        elif x.k == "K":
            pass
        else:
            vs = eng.disc_of(x, RESULT)
            if vs is None or "Err" in vs:
                return True
    return False


# ---------------------------------------------------------------------------------------------- reporting
class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.viol = []  # (key, text)
        self.obl = []
        self.samples = []
        self.counts = {}
        self.notes = []
        self.known_hit = []
        self.rule = ""

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, what):
        self.obl.append(what)

    def violation(self, key, text):
        """key: stable identification (no line numbers); text: the offending construct."""
        if key not in [k for k, _ in self.viol]:
            self.viol.append((key, text))

    def merge(self, r):
        for k, t in r.viol:
            self.violation(k, t)
        self.obl += r.obl
        self.samples += r.samples
        for k, n in r.counts.items():
            self.count(k, n)

    def require(self, cond, key, text):
        self.obl.append(key)
        if not cond:
            self.violation(key, text)
        return cond


def parallel(fn_, n, w):
    """[fn_(0), .., fn_(n-1)], computed by forked workers."""
    gc.collect()
    gc.freeze()
    ctx = multiprocessing.get_context("fork")
    global _FN
    _FN = fn_
    with ctx.Pool(w) as p:
        return p.map(_call, range(n), chunksize=4)


def _call(i):
    return _FN(i)


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    out[d["key"]] = d["what"]
    return out


def finish(rep, explanation, assumptions=()):
    known = load_known(rep.prop)
    viol = [(k, t) for k, t in rep.viol if k not in known]
    hit = [(k, t) for k, t in rep.viol if k in known]
    for k, t in hit:
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, known[k]))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cov = {
        "explanation": explanation,
        "rule": rep.rule or explanation,
        "obligations": len(rep.obl),
        "discharged": len(rep.obl) - len({k for k, _ in rep.viol} & set(rep.obl)),
        "samples": (rep.samples or rep.obl)[:12],
        "known_findings_present": [k for k, _ in hit],
    }
    cov.update(rep.counts)
    ev = {"property": rep.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": list(assumptions),
          "wall_s": round(time.time() - rep.t0, 2), "violations": len(viol)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    rpath = os.path.join(d, rep.prop + ".replay.txt")
    with open(os.path.join(d, rep.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if viol:
        with open(rpath, "w") as fh:
            for k, t in viol:
                fh.write("%s\n    %s\n" % (k, t))
        for k, t in viol[:20]:
            print("  %s: %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (rep.prop, os.path.relpath(rpath, VERIF)))
        return 1
    if os.path.exists(rpath):
        os.remove(rpath)
    print("OK property=%s obligations=%d %s" % (rep.prop, len(rep.obl), " ".join("%s=%s" % kv for kv in rep.counts.items())))
    return 0


# ---------------------------------------------------------------------------------------------- attribute sinks
def short(adt):
    n = adt.split("::")[-1].rstrip(">")
    return n[:-4] if n.endswith("Info") and n != "EnumeratedInfo" else n


OWNERS = (("peripherals.elem", "Peripheral"), ("clusters()", "Cluster"), ("registers()", "Register"), ("Register/0", "Register"), ("Cluster/0", "Cluster"), ("fields()", "Field"), ("interrupt", "Interrupt"), ("cpu", "Cpu"),
          ("address_block", "AddressBlock"), ("enumerated_values", "EnumeratedValues"), ("values", "EnumeratedValue"))


def chain_of(x):
    """Projection keys from the root of atom x outwards."""
    out = []
    while x.k == "P":
        if x.b[:1] != "@":
            out.append(x.b if isinstance(x.b, str) else "/".join(map(str, x.b)))
        x = x.a
    out.reverse()
    return out


def owner_of(x):
    own = "Device"
    prev = None
    for k in chain_of(x):
        if k == "elem" and prev == "peripherals":
            own = "Peripheral"
        if k == "elem" and prev == "fields":
            own = "Field"
        for a, o in OWNERS:
            if k == a:
                own = o
        if k != "Some":
            prev = k
    return own


def is_prefix(a, b):
    """Is atom a on the projection chain of b (or b itself)?"""
    while True:
        if a is b:
            return True
        if b.k != "P":
            return False
        b = b.a


def _strip(field):
    for p in ("default_register_properties.", "properties."):
        if field.startswith(p):
            return field[len(p):]
    return field


RP_FIELDS = {"size": "size", "access": "access", "reset_value": "reset_value", "reset_mask": "reset_mask", "protection": "protection"}


def sinks(e, eng=None):
    """Attributes an effect writes: list of (owner kind, attribute, value atoms)."""
    out = []
    seen = set()

    def walk(atoms, own, attr):
        plain = set()
        for x in atoms:
            if x.k == "R":
                walk(x.cell.v, own, attr)
                continue
            if x.k == "O":
                if (x.id, own, attr) in seen:
                    continue
                seen.add((x.id, own, attr))
                if x.b == "builder":
                    o2 = short(x.c)
                    for k, c in x.cells.items():
                        if not isinstance(k, str) or k.startswith("@"):
                            continue
                        if o2 == "RegisterProperties":
                            walk(c.v, own, k)
                        else:
                            walk(c.v, o2, k)
                    continue
                if x.b == "adt" and x.c[0].startswith("svd_rs") and x.c[0] not in ("svd_rs::MaybeArray", "svd_rs::RegisterCluster") and x.eng.adts[x.c[0]]["k"] == "struct" \
                        if False else False:
                    continue
                if x.b in ("vec", "array", "seq", "tuple", "map") or (x.b == "adt" and (x.c[0] in (OPTION, RESULT) or x.c[0] in ("svd_rs::MaybeArray", "svd_rs::RegisterCluster"))):
                    if has_builder(x):
                        for c in x.cells.values():
                            walk(c.v, own, attr)
                        continue
            plain.add(x)
        if plain and attr is not None:
            out.append((own, attr, plain))

    if e.kind == "set":
        own = short(e.adt) if e.adt else None
        if own == "RegisterProperties":
            for own2 in {owner_of(x) for x in e.targets}:
                walk(e.vals, own2, e.field)
        elif own is None:
            for own2 in {owner_of(x) for x in e.targets}:
                walk(e.vals, own2, "*")
        else:
            walk(e.vals, own, e.field)
    else:
        for own2 in {owner_of(x) for x in e.targets}:
            walk(e.vals, own2, "*" + e.field)
    # merge
    m = {}
    for o, a, v in out:
        m.setdefault((o, _strip(a)), set()).update(v)
    return [(o, a, v) for (o, a), v in m.items()]


def has_builder(x, seen=None):
    seen = seen if seen is not None else set()
    if x in seen:
        return False
    seen.add(x)
    if x.k == "R":
        return any(has_builder(y, seen) for y in x.cell.v)
    if x.k != "O":
        return False
    if x.b == "builder":
        return True
    return any(has_builder(y, seen) for c in x.cells.values() for y in c.v)


# ---------------------------------------------------------------------------------------------- must-happen analysis
def _pay(eng, cell):
    """(payload atoms, may be None) of an Option-typed value; None when it is not an option."""
    pay, none = set(), False
    for x in cell.v:
        if x.k == "U":
            none = none or (x.a == OPTION and x.b == 0)
        elif x.k == "O" and x.b == "adt" and x.c[0] == OPTION:
            if x.c[1] == 1:
                for c in x.cells.values():
                    pay |= c.v
            else:
                none = True
        elif x.k == "O" and x.b == "adt" and x.c[0] == RESULT and x.c[1] == 0:
            for c in x.cells.values():
                p, n = _pay(eng, c)
                pay |= p
                none = none or n
    return pay, none


def relevant(eng, pay, targets, ypfx):
    for x in pay:
        if x.k == "R":
            if relevant(eng, x.cell.v, targets, ypfx):
                return True
        elif x.k == "O" and x.b == "tuple":
            for c in x.cells.values():
                if relevant(eng, c.v, targets, ypfx):
                    return True
        elif x.k == "O" and x.b == "adt" and x.c[0] in ("svd_rs::MaybeArray", "svd_rs::RegisterCluster"):
            for c in x.cells.values():
                if relevant(eng, c.v, targets, ypfx):
                    return True
        elif x.k == "Y":
            if any(p == x.b or p.startswith(x.b + "/") or re.fullmatch(re.escape(p) + r"/\d+", x.b) for p in ypfx):
                return True
        elif x.k == "K":
            if x.a == "str" and x.b in (eng.table_keys or ()):
                return True  # the entry of a lookup table a rule of the document asks for
        elif x.k in ("P", "N", "S"):
            if x.k == "P" and any(is_prefix(x, t) for t in targets):
                return True
            y = rootname(x)
            if y.k == "Y" and any(p == y.b or p.startswith(y.b + "/") or re.fullmatch(re.escape(p) + r"/\d+", y.b) for p in ypfx):
                return True
    return False


def local_reach(f, starts, avoid=()):
    succ = {}
    for (b, t) in f.edges:
        succ.setdefault(b, []).append(t)
    seen = set()
    todo = [t for s in starts for t in succ.get(s, ())]
    while todo:
        b = todo.pop()
        if b in seen or b in avoid:
            continue
        seen.add(b)
        todo.extend(succ.get(b, ()))
    return seen


def some_reach(f, bb):
    """Blocks reachable after a `Some` from the call at bb, up to the next activation of bb."""
    blocks = f.body.blocks
    succ = {}
    for (b, t) in f.edges:
        succ.setdefault(b, set()).add(t)
    b = bb
    seen = set()
    while b not in seen:
        seen.add(b)
        t = blocks[b][1]
        if t[0] == "switch":
            vals = {x[0]: x[1] for x in t[2]}
            none = [x[1] for x in t[2] if x[0] == 0]
            starts = [x for x in succ.get(b, ()) if x not in none]
            if 0 not in vals and 1 in vals:
                starts = [x for x in starts if x == vals[1]]
            return _reach(succ, starts, {bb})
        ss = succ.get(b, ())
        if len(ss) != 1:
            break
        b = next(iter(ss))
    return _reach(succ, succ.get(bb, ()), {bb})


def _reach(succ, todo, avoid):
    seen = set()
    todo = list(todo)
    while todo:
        b = todo.pop()
        if b in seen or b in avoid:
            continue
        seen.add(b)
        todo.extend(succ.get(b, ()))
    return seen


def chain_points(eng, e, ypfx):
    """Uncertain hand-outs (Some or None) of rule entries / device elements on the call chain of effect e that lead to it."""
    pts = []
    f, pos = e.f, e.bb
    while f is not None:
        for bb, (cal, args, dest) in f.calls.items():
            if dest[1]:
                continue
            cell = f.cells.get(dest[0])
            if cell is None:
                continue
            pay, none = _pay(eng, cell)
            if not pay or not none or not relevant(eng, pay, e.targets, ypfx):
                continue
            r = local_reach(f, [bb])
            if pos not in r:
                continue
            # dominates pos?
            ent = f.body.entry
            r2 = local_reach(f, [ent], avoid={bb}) | ({ent} if ent != bb else set())
            if pos in r2:
                continue
            if bb in r and bb not in local_reach(f, [pos]) and pos not in some_reach(f, bb):
                continue  # a loop that is over before the effect
            pts.append((f, bb))
        pos = f.key[0] if isinstance(f.key, tuple) else None
        f = f.parent
    return pts


def pkey(f, bb):
    return (f.path(), bb)


def apath(x):
    """Name of a device atom that is stable between runs."""
    ks = chain_of(x)
    r = rootname(x)
    return (r.eng.ninfo[r][0] if r.k == "N" and r in r.eng.ninfo else str(r.a),) + tuple(ks)


def has_match(f):
    return any(b is not None and b[1][0] == "call" and b[1][1].get("n") == MATCH for b in f.inst["blocks"])


def on_text(eng, cal):
    if cal["n"].startswith(TEXTS):
        return True
    t = eng.T[cal["a"][0]] if cal.get("a") and cal["n"].startswith("std::ops::Index") else {}
    return t.get("k") == "str" or t.get("n") == "std::string::String"


def any_match(f, d=0):
    return has_match(f) or d < 3 and any(any_match(k, d + 1) for (key, m), k in f.kids.items() if key[1])


def named(atoms):
    """Device elements whose name is among the given values."""
    out = set()
    for x in leaves(atoms):
        if x.k == "P" and x.b == "name" and x.a.k == "P" and is_dev(x):
            out.add(x.a)
        elif x.k == "N" and x.eng.ninfo[x][0] == "svd_rs::Name::name":
            out |= {y for y in leaves(x.eng.ninfo[x][1][0]) if y.k == "P" and is_dev(y)}
    return out


def len_cmp(eng, op, s1, s2):
    def isl(s):
        return s and all(x.k == "N" and eng.ninfo[x][0] == "len>=1" for x in s)

    def k(s):
        return next(iter(s)).b if len(s) == 1 and next(iter(s)).k == "K" else None
    if isl(s2):
        op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        s1, s2 = s2, s1
    if not isl(s1) or k(s2) is None:
        return None
    v = k(s2)
    if op in ("Eq", "Lt") and v == 0 or op == "Lt" and v <= 1 or op == "Le" and v == 0:
        return {eng.FALSE}
    if op in ("Ne", "Gt") and v == 0 or op == "Ge" and v <= 1:
        return {eng.TRUE}
    return None


DROP = {"skip", "take", "step_by", "skip_while", "take_while", "map_while", "truncate", "split_off", "dedup", "dedup_by", "dedup_by_key", "split_first", "split_last", "split_at", "split_at_mut",
        "chunks", "chunks_exact", "pop", "remove", "swap_remove", "nth", "nth_back", "unique", "unique_by", "advance_by", "scan"}
TEXTS = ("std::string::String::", "core::str::", "std::str::")  # parts of texts are no elements
RANGED = {"index", "index_mut", "get", "get_mut", "drain"}
PRED = {"ifil": "filter", "fdp": "find", "imw": "take_while/skip_while"}
PREDO = {"ifm": "filter_map", "fmp": "find_map"}


def flat(tag):
    out = set()
    todo = [tag]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
        else:
            out.add(t)
    return out


def carried(atoms, depth=0):
    """Elements an iterator or vector value yields (without running closures)."""
    out = set()
    for x in atoms:
        if x.k == "R":
            out |= carried(x.cell.v, depth)
        elif x.k == "O" and x.b in ("iter", "vec", "seq", "array") and depth < 8:
            for k, c in x.cells.items():
                if k != "f":
                    out |= carried(c.v, depth + 1)
        elif x.k == "O" and x.b == "adt" and depth < 8:
            for k, c in x.cells.items():
                out |= carried(c.v, depth + 1)
        else:
            out.add(x)
    return out


def subtree(f, bb, without=()):
    """Frames activated by the call at block bb of f."""
    out = []
    todo = [k for ((b, _), _), k in ((kk, k) for kk, k in f.kids.items()) if b == bb]
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen or k in without:
            continue
        seen.add(k)
        out.append(k)
        todo.extend(k.kids.values())
    return out


AGG = {"any", "all", "count", "position", "rposition", "fold", "try_fold", "sum", "max", "min", "contains", "is_sorted"}


def chain_blocks(e):
    where = []
    f, pos = e.f, e.bb
    while f is not None:
        where.append((f, {bb for bb in f.calls if bb == pos or pos in local_reach(f, [bb])}))
        pos = f.key[0] if isinstance(f.key, tuple) else None
        f = f.parent
    return where


def feeders(where):
    """Iterator implementations and closures run by the library calls of the chain (not the chain itself)."""
    out = set()
    own = {f for f, _ in where}
    for f, bbs in where:
        for bb in bbs:
            if bb in f.calls and "inst" not in f.calls[bb][0] and f.calls[bb][0]["n"].rsplit("::", 1)[-1] not in AGG:
                out.update(subtree(f, bb, own))
    return out


def inner_points(eng, e, targets, ypfx):
    """Uncertain hand-outs inside the functions that produce the hand-outs of the chain."""
    out = []
    for k in feeders(chain_blocks(e)):
        if True:
            for b2, (cal, args, dest) in k.calls.items():
                cell = k.cells.get(dest[0]) if not dest[1] else None
                if cell is None:
                    continue
                pay, none = _pay(eng, cell)
                if pay and none and relevant(eng, pay, targets, ypfx):
                    out.append((k, b2))
    return out


def dropped(eng, e, inner, tg):
    """Constructs between the device and effect e that may leave matching elements out."""
    out = []
    where = chain_blocks(e)
    where += [(k, None) for k in feeders(where)]
    for f, bbs in where:
        for bb, (cal, args, dest) in f.calls.items():
            if bbs is not None and bb not in bbs or not args:
                continue
            nm = cal["n"].rsplit("::", 1)[-1]
            rng = nm in RANGED and not on_text(eng, cal) and len(args) > 1 and any(x.k == "O" and x.b == "adt" and "ops::Range" in x.c[0] and not x.c[0].endswith("RangeFull") for x in args[1])
            if (nm in DROP or rng) and not on_text(eng, cal) and cal["n"].startswith(("std::", "core::", "alloc::", "itertools::")) and elem_relevant(eng, carried(args[0]), tg):
                out.append("`%s` in %s (%s) leaves out matching elements" % (nm, f.n, f.loc(bb)))
        for ((bb, tag), m), k in f.kids.items():
            if bbs is not None and bb not in bbs:
                continue
            fl = flat(tag)
            vals = set()
            kind = next((v for t, v in PRED.items() if t in fl), None)
            kindo = next((v for t, v in PREDO.items() if t in fl), None)
            if not kind and not kindo or not k.ret.v:
                continue
            for l in range(2, k.inst["argc"] + 1):
                c = k.cells.get(k.body.entryver.get(l, l))
                if c is not None:
                    vals |= c.v
            if not elem_relevant(eng, carried(vals), tg):
                continue
            if kind and any(x is not eng.TRUE for x in k.ret.v) or kindo and any(x.k == "U" and x.a == OPTION for x in k.ret.v):
                out.append("the predicate of `%s` in %s (%s) may reject matching elements" % (kind or kindo, f.n, f.loc(bb)))
    for k, bb in inner:
        if not elem_like(_pay(eng, k.cells[k.calls[bb][2][0]])[0]):
            continue
        r = local_reach(k, [bb])
        for k2, b2 in inner:
            if k2 is k and b2 in r:
                out.append("%s (%s) may drop an element it took out and go on to the next" % (k.n, k.loc(bb)))
    return out


def elem_relevant(eng, atoms, targets):
    return any(x.k == "P" and x.b in ("elem", "registers()", "clusters()", "fields()", "reg_iter()") or x.k == "P" and x.b.endswith(")") for x in atoms if is_dev(x) and any(is_prefix(x, t) for t in targets))


def table_arg(eng, k):
    """Is closure frame k called with an entry of a lookup table the document has a key of?"""
    if not eng.table_keys:
        return False
    vals = set()
    for l in range(2, k.inst["argc"] + 1):
        c = k.cells.get(k.body.entryver.get(l, l))
        if c is not None:
            vals |= c.v
    return any(x.k == "K" and x.a == "str" and x.b in eng.table_keys for x in leaves(vals))


class MustRun:
    """Second run in which the given points always hand out an element (no `None`)."""

    def __init__(self, doc, points, targets, hook=None, disc=None, inner=(), config=None, keys=False):
        okeys = {pkey(f, bb) for f, bb in points}
        ikeys = {pkey(f, bb) for f, bb in inner}
        tkeys = keys
        keys = okeys | ikeys
        names = {(f.m, bb) for f, bb in list(points) + list(inner)}
        F = facts()[0]
        tg = set()
        for x in targets:
            while x.k == "P":
                tg.add(apath(x))
                x = x.a

        def hook2(c):
            r = hook(c) if hook else None
            if r is not None:
                return r
            if c.n == MATCH and any(apath(x) in tg for x in named(c.args[1])):
                return {c.eng.TRUE}
            last = c.n.rsplit("::", 1)[-1]
            if last in ("is_empty", "len", "is_none", "is_some") and "inst" not in c.callee and c.args:
                rel = False
                for x in c.a(0):
                    if x.k == "P" and apath(x) in tg and last in ("is_none", "is_some"):
                        rel = True
                    if x.k == "O" and x.b == "vec":
                        rel = rel or any(y.k == "P" and apath(y) in tg for y in c.eng.elems(c, x, "ie"))
                if rel:
                    if last == "len":
                        return {c.node("len>=1", tag="ge1")}
                    return {c.eng.TRUE if last == "is_some" else c.eng.FALSE}
            return None

        self.eng = Engine(F, hook=hook2, disc=disc)
        eng = self.eng
        eng.hook_bin = lambda f, bb, op, s1, s2: len_cmp(eng, op, s1, s2)

        def post(c, r):
            nm = c.n.rsplit("::", 1)[-1]
            if nm == "next" and has_match(c.f) and not any(is_dev(x) for x in carried(r)):
                # a specification has at least one sub-specification
                return {x for x in r if not (x.k == "U" and x.a == OPTION)}
            if nm in ("find", "any", "find_map", "position", "rfind", "rposition") and r:
                ks = [k for (kk, m), k in c.f.kids.items() if kk[0] == c.bb and k.ret.v and (any_match(k) or table_arg(eng, k))]
                if ks and all(x is eng.TRUE or x.k == "O" and nm == "find_map" for k in ks for x in k.ret.v):
                    return {x for x in r if x is not eng.FALSE and not (x.k == "U" and x.a == OPTION)}
            if c.tag != () or (c.f.m, c.bb) not in names or pkey(c.f, c.bb) not in keys:
                return r
            out = set()
            for x in r:
                if x.k == "U" and x.a == OPTION:
                    continue
                if x.k == "O" and x.b == "adt" and x.c[0] == RESULT and x.c[1] == 0:
                    p = set()
                    for cc in x.cells.values():
                        cc.deps.add(c.u)
                        p |= {y for y in cc.v if not (y.k == "U" and y.a == OPTION)}
                    if p:
                        out |= c.ok(p, "must")
                    continue
                out.add(x)
            return out
        eng.post = post
        self.doc = eng.doc(doc)
        eng.table_keys = doc_keys(doc) if tkeys else None
        self.fr = eng.root(patch_root(F), {1: {self.doc}, **config_arg(eng, patch_root(F), config)})
        self.points = [(f, bb) for f in eng.frames for bb in f.calls if (f.m, bb) in names and pkey(f, bb) in okeys]
        self.inner = [(f, bb) for f in eng.frames for bb in f.calls if (f.m, bb) in names and pkey(f, bb) in ikeys]


def must_many(doc, items, ypfx, hook=None, disc=None, config=None, keys=False):
    """items: {label: (select(effect), effects of the first run, forall)}. For every label: once every rule entry and every matching
    element is handed out, no successful run may miss the effects (nor, with forall, stop early). -> [(label, text)]"""
    out = []
    cache = {}
    firsts = {}
    for label, (select, effs, forall) in items.items():
        groups = {}
        for e in effs:
            pts = chain_points(e.f.eng, e, ypfx)
            inner = inner_points(e.f.eng, e, e.targets, ypfx)
            groups.setdefault(frozenset(pkey(f, b) for f, b in pts + inner), []).append((e, pts, inner))
        for key, es in groups.items():
            e, pts, inner = es[0]
            ck = (key, frozenset(apath(t) for e2, _, _ in es for t in e2.targets))
            if ck not in cache:
                mr = MustRun(doc, pts, {t for e2, _, _ in es for t in e2.targets}, hook, disc, inner, config, keys)
                cache[ck] = (mr, Icfg(mr.eng), effects(mr.eng), err_nodes(mr.eng))
            mr, cfg, ef, errs = cache[ck]
            eng = mr.eng
            en = [x for x in ef if select(x)]
            avoid = {(x.f, x.bb, 0) for x in en} | errs
            where = "%s (%s)" % (e.f.n, e.f.loc(e.bb))
            if not en:
                out.append((label, "%s: never performed once every matching element is handed out" % where))
                continue
            root = mr.fr
            first = (root, root.body.entry, 0)
            r = cfg.reach([first], avoid=avoid) if first not in avoid else {}
            rets = [n for n in r if n[0] is root and root.body.blocks[n[1]][1][0] == "ret" and n[2] == 0]
            if rets:
                out.append((label, "%s: a successful run can bypass it (%s)" % (where, trace(eng, r, rets[0]))))
                continue
            for f, bb in mr.points:
                r = cfg.reach([(f, bb, 1)], avoid=avoid)
                if (f, bb, 0) in r:
                    out.append((label, "%s: skipped for an element handed out at %s %s (%s)" % (where, f.n, f.loc(bb), trace(eng, r, (f, bb, 0), stop=(f, bb, 1)))))
            if forall:
                for e2 in en:
                    if not {apath(t) for t in e2.targets} <= ck[1]:
                        continue
                    for t in dropped(eng, e2, mr.inner, e2.targets):
                        out.append((label, "%s: %s" % (where, t)))
            if forall:
                eng0 = e.f.eng
                if eng0 not in firsts:
                    firsts[eng0] = (Icfg(eng0), err_nodes(eng0), {})
                c0, er0, memo = firsts[eng0]
                for f, bb in pts:
                    if (f, bb) not in memo:
                        memo[f, bb] = early_exit(c0, er0, pts, f, bb)
                    q = memo[f, bb]
                    if q:
                        out.append((label, "%s: the iteration at %s (%s) can end successfully before all matching elements were visited (%s)" % (where, f.n, f.loc(bb), q)))
    return out


def some_starts(f, bb):
    """Blocks entered after a `Some` from the call at bb."""
    blocks = f.body.blocks
    succ = {}
    for (b, t) in f.edges:
        succ.setdefault(b, set()).add(t)
    b = bb
    seen = set()
    while b not in seen:
        seen.add(b)
        t = blocks[b][1]
        if t[0] == "switch":
            vals = {x[0]: x[1] for x in t[2]}
            if 0 not in vals and 1 in vals:  # `while let`: only the Some side is named
                return [x for x in succ.get(b, ()) if x == vals[1]]
            none = [x[1] for x in t[2] if x[0] == 0]
            return [x for x in succ.get(b, ()) if x not in none]
        ss = succ.get(b, ())
        if len(ss) != 1 or t[0] == "call" and b != bb and not t[1]["n"].endswith("Try::branch"):
            break
        b = next(iter(ss))
    return list(succ.get(bb, ()))


def early_exit(cfg, errs, points, f, bb):
    """The point hands out elements of an iteration: once it handed one out, can the iteration be left without an error and without
    asking for the next element?"""
    eng = cfg.eng
    cal, args, dest = f.calls[bb]
    pay, none = _pay(eng, f.cells[dest[0]])
    if not iterates(eng, cal, pay) or probe(f, bb):
        return None
    me = (f, bb, 0)
    ent = f.body.entry
    outer = set()
    for f2, b2 in points:
        if f2 is f and b2 != bb:
            r2 = local_reach(f, [ent], avoid={b2}) | ({ent} if ent != b2 else set())
            if bb not in r2:
                outer.add((f, b2, 0))
    starts = [(f, b, 0) for b in some_starts(f, bb)]
    avoid = lambda n: n in errs or n == me or (n[0] is f.parent)
    starts = [n for n in starts if n not in errs and n != me]
    r = {n: None for n in starts}
    r.update(cfg.reach(starts, avoid=avoid))
    for n in r:
        if n in outer or n[0] is f and n[2] == 0 and f.body.blocks[n[1]][1][0] == "ret":
            return trace(eng, r, n)
    return None


def probe(f, bb):
    """Is the handed-out value only asked whether it is there (is_some/is_none)?"""
    if bb in local_reach(f, [bb]):
        return False
    taint = {f.calls[bb][2][0]}
    while True:
        new = set(taint)
        for b in f.reached:
            sts, t, loc = f.body.blocks[b]
            for (dest, rv, _) in sts:
                src = None
                if rv[0] == "ref":
                    src = rv[1]
                elif rv[0] == "use" and rv[1][0] != "k":
                    src = rv[1][1]
                if src is not None:
                    if src[0] in taint:
                        if src[1] and src[1] != [["*"]]:
                            return False
                        new.add(dest[0])
                elif uses(rv, taint):
                    return False
            if t[0] == "call" and b != bb:
                for a in t[2]:
                    if a[0] != "k" and a[1][0] in taint and t[1].get("n", "").rsplit("::", 1)[-1] not in ("is_some", "is_none", "drop", "drop_in_place"):
                        return False
            if t[0] == "switch" and uses(t[1], taint):
                return False
        if new == taint:
            return True
        taint = new


def uses(x, locals_):
    """Does a (nested) operand/rvalue mention a place with one of the locals?"""
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], list) and isinstance(x[2], int):
            return x[0] in locals_
        return any(uses(y, locals_) for y in x)
    return False


def iterates(eng, cal, pay):
    """Does the hand-out belong to an iteration over device elements or rule entries?"""
    if elem_like(pay):
        return True
    return cal["n"].rsplit("::", 1)[-1] in ("next", "next_back", "pop", "pop_front", "nth") and any(rootname(y).k == "Y" for x in pay for y in (carried({x}) if x.k == "O" else {x}))


def elem_like(atoms):
    for x in atoms:
        if x.k == "R" and elem_like(x.cell.v):
            return True
        if x.k == "O" and x.b in ("tuple", "adt") and any(elem_like(c.v) for c in x.cells.values()):
            return True
        if x.k == "P" and (x.b == "elem" or str(x.b).endswith("()")) and is_dev(x):
            return True
    return False


def must_violations(doc, select, effs, ypfx, hook=None, disc=None, forall=True):
    return [t for _, t in must_many(doc, {"": (select, effs, forall)}, ypfx, hook, disc)]


def trace(eng, pred, n, stop=None, limit=6):
    """Readable tail of the path to node n."""
    out = []
    last = None
    k = 0
    while n in pred and k < 4000:
        f, bb, ph = n
        s = f.loc(bb)
        if s != last and not s.startswith("/rustc"):
            out.append(s)
            last = s
        n = pred[n]
        k += 1
        if n == stop:
            break
    out.reverse()
    return "path ... " + " -> ".join(out[-limit:])
