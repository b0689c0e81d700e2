"""Scenario runs of the command line commands: the command's options are given values, library calls are opaque."""
from core import *

COMMAND = "cli::Command"


class Cmd:
    """A run of `Command::run` for one command with the given option values (others opaque)."""

    def __init__(self, variant, fields=(), ext=None, hook=None, disc=None, whole=False):
        B = facts()[1]
        self.variant = variant
        self.given = dict(fields)
        self.ext = ext or {}
        self.user = hook
        self.whole = whole
        eng = self.eng = Engine(B, hook=self.hook, disc=disc)
        adt = [n for n in eng.adts if n.endswith(COMMAND)]
        if len(adt) != 1:
            raise Anchor("command enumeration not found")
        vs = eng.adts[adt[0]]["v"]
        vi = [i for i, v in enumerate(vs) if v["n"] == variant]
        if not vi:
            raise Anchor("command %s not found" % variant)
        o = eng.obj((0, "command"), "adt", (adt[0], vi[0]))
        names = list(vs[vi[0]]["f"])
        for k in self.given:
            if k not in names:
                raise Anchor("option %s of command %s not found" % (k, variant))
        for i, n in enumerate(names):
            eng.join(eng.ocell(o, i), self.value(n, self.given.get(n, "$" + n)))
        self.fr = eng.root(fn(B, "cli::Command::run"), {0: {o}})
        self._cfg = None

    def value(self, n, v):
        eng = self.eng
        if v is True or v is False:
            return {eng.TRUE if v else eng.FALSE}
        if v is None:
            return {eng.NONE}
        if isinstance(v, tuple) and v[0] == "some":
            o = eng.obj((0, "command", n), "adt", (OPTION, 1))
            eng.join(eng.ocell(o, 0), self.value(n, v[1]))
            return {o}
        if isinstance(v, tuple) and v[0] == "variant":
            a = [x for x in eng.adts if x.endswith(v[1])]
            i = [j for j, w in enumerate(eng.adts[a[0]]["v"]) if w["n"] == v[2]]
            return {eng.unitv(a[0], i[0])}
        return {eng.sym(v)}

    def hook(self, c):
        if not self.whole and c.n.endswith("patch::process_reader"):
            return c.ok({c.node(tag="patched")}) | c.err({c.node(tag="patch-error")})
        if c.n == "std::path::Path::extension":
            of = {x.a for x in leaves(c.args[0]) if x.k == "S"}
            for n, e in self.ext.items():
                if "$" + n in of:
                    return {c.eng.NONE} if e is None else c.some({c.eng.const("str", e)})
        if self.user:
            return self.user(c)
        return None

    # ------------------------------------------------------------------ events
    def calls(self, *pats):
        """Calls of library functions whose name contains one of the patterns -> [(frame, block, callee, args)]"""
        return [(f, bb, cal, args) for f in self.eng.frames for bb, (cal, args, _) in f.calls.items() if any(p in cal["n"] for p in pats)]

    def can_succeed(self):
        return may_ok(self.eng, self.fr.ret.v)

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Icfg(self.eng), err_nodes(self.eng)
        return self._cfg

    def bypass(self, calls):
        """Can the command succeed without performing any of these calls? -> path text or None"""
        cfg, errs = self.cfg
        avoid = {(f, bb, 0) for f, bb, _, _ in calls} | errs
        root = self.fr
        first = (root, root.body.entry, 0)
        r = cfg.reach([first], avoid=avoid) if first not in avoid else {}
        for n in r:
            if n[0] is root and root.body.blocks[n[1]][1][0] == "ret" and n[2] == 0:
                return trace(self.eng, r, n)
        return None

    def after(self, calls):
        cfg, errs = self.cfg
        return cfg.reach([(f, bb, 1) for f, bb, _, _ in calls], avoid=errs)


def syms(atoms):
    """Options (names without `$`) a value is computed from."""
    return {x.a[1:] for x in leaves(atoms) if x.k == "S" and str(x.a).startswith("$")}


def through(atoms, *pats):
    """Is the value computed by one of these functions? -> the results"""
    return [x for x in leaves(atoms) if x.k == "N" and any(p in x.eng.ninfo[x][0] for p in pats)]
