"""makedeps lists every included file that patch reads."""
from c14 import *

LIST = {"insert", "push", "extend", "append", "extend_from_slice", "push_back"}
OUT = {"write_all", "write", "write_fmt", "push_str", "push", "extend", "write_str", "join", "format", "write_all_vectored"}
ROOT = "makedeps::makedeps_cli::makedeps"


def marks(r, part):
    """Results of the nested loading of a document part, one for each place it is done at."""
    out = sorted({x.a for x in r.eng.tab.values() if x.k == "S" and str(x.a).startswith("$nested:%s@" % part)})
    if not out:
        raise Anchor("nested includes are not followed")
    return out


def listed(rep, r, label, part, opened):
    """The file is put in a list when opened, and each entry of the list is written."""
    eng = r.eng
    if opened:
        opens = [(f, bb) for f in eng.frames for bb, (cal, args, d) in f.calls.items() if cal["n"] in OPEN and tainted(args[0], part)]
        if not opens:
            raise Anchor("%s: the included file is not opened" % label)
        acts = [(f, bb) for f in eng.frames for bb, (cal, args, d) in f.calls.items() if cal["n"].rsplit("::", 1)[-1] in LIST and len(args) > 1 and tainted(args[-1], part)
                and not any(y.k == "Y" for y in deref(args[0]))]
        before = set()
        for a in acts:  # entered in the list before it is opened
            rr = r.cfg.reach([(eng.frames[0], eng.frames[0].body.entry, 0)], avoid={(a[0], a[1], 0)} | r.errs)
            before |= {o for o in opens if (o[0], o[1], 0) not in rr}
        for o in opens:
            bad = None if o in before else r.must([o], acts) if acts else "no list"
            rep.require(not bad, label + "/list", "%s: a file that is read is not recorded: %s" % (label, bad))
    outs = [(f, bb) for f in eng.frames for bb, (cal, args, d) in f.calls.items() if cal["n"].rsplit("::", 1)[-1] in ("write_all", "write_fmt", "write") and any(tainted(a, part) for a in args[-1:])]
    rep.require(bool(outs), label + "/written", "%s: the file is not written to the dependency list" % label)
    hs = []
    for f in eng.frames:
        for bb, (cal, args, dest) in f.calls.items():
            if cal["n"].rsplit("::", 1)[-1] in ("next", "next_back", "pop") and not dest[1] and dest[0] in f.cells and tainted(f.cells[dest[0]].v, part) and \
                    any(n[0] is o[0] and n[1] == o[1] for o in outs for n in r.cfg.reach([(f, b, 0) for b in some_starts(f, bb)], avoid={(f, bb, 0)})):
                hs.append((f, bb))
    acts = outs + [(f, bb) for f in eng.frames for bb, (cal, args, d) in f.calls.items() if cal["n"].rsplit("::", 1)[-1] in OUT and len(args) > 1 and tainted(args[-1], part)]
    bad = r.must(hs, acts) if hs else None
    rep.require(not bad, label + "/all", "%s: a recorded file is not written: %s" % (label, bad))
    drop = r.dropping(part)
    rep.require(not drop, label + "/complete", "%s: included files are left out at %s" % (label, drop[:2]))
    rep.count("outputs", len(outs))


def check(rep):
    for inc in (S, [S]):
        r = Load(ROOT, {"_include": inc}, {"N": S})
        label = "_include %s" % inc
        listed(rep, r, label, "P/_include", True)
        for m in marks(r, "C"):
            listed(rep, r, label + " nested", m, False)
        r2 = Load(ROOT, {"_include": inc}, {}, empty=True)
        listed(rep, r2, label + " empty file", "P/_include", True)
        r3 = Load(ROOT, {"X": {"_include": inc}}, {})
        for m in marks(r3, "P/X"):
            listed(rep, r3, "peripheral " + label, m, False)
        rep.count("scenarios", 3)
        rep.count("frames", sum(len(x.eng.frames) for x in (r, r2, r3)))
    # loading for makedeps and for patch
    return ("The makedeps command is analysed from its entry point with documents of given shape: on every path that does not fail, each included file that is opened is entered in the list of dependencies, "
            "and each entry of that list (also those of nested and peripheral includes) is written to the output.")
