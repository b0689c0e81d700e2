"""interrupts prints every interrupt of every peripheral, in the order of their numbers."""
from flow import *

ROOT = "interrupts::interrupts_cli::parse_device"
PER = ("peripherals", "peripheral")
INT = PER + ("interrupt",)
NEED = {PER + ("name",), INT + ("name",), INT + ("value",)}


def disc(x, adt):
    # peripherals that have interrupts
    if adt == OPTION and gchain(x) == INT:
        return {"Some"}
    return None


def disc_desc(x, adt):
    if adt == OPTION and gchain(x) == INT + ("description",):
        return {"Some"}
    return disc(x, adt)


def made_of(atoms, what):
    return any(x.k == "P" and gchain(x)[:len(what)] == what for x in parts(atoms))


def run(rep, label, d, need):
    fl = Flow(ROOT, disc=d)
    eng = fl.eng
    root = eng.frames[0]
    direct = {("peripherals", PER), ("interrupts", INT)}
    acts, prints, why = [], [], "no line with %s" % ", ".join(".".join(x) for x in sorted(need))
    for f, bb, n, t in outputs(fl):
        at = {gchain(x) for x in surely(t)}
        if need <= at and not (n == "insert" and any(y.k == "O" and y.b == "map" for y in payload(eng, f.calls[bb][1][0]))):
            if n in ("_print", "write_all", "write_fmt"):
                prints.append((f, bb, 0))
            if any(x.k == "N" and "fmt" in eng.ninfo[x][0] for x in leaves(t)):
                acts.append((f, bb, 0))

    def deep(x):
        return x.k == "O" and x.b in ("adt", "tuple") and INT + ("value",) in whole(x) and PER + ("name",) in whole(x) or x.k == "P" and gchain(x) == INT and chain_of(x)[-1:] == ["elem"] or \
            x.k == "N" and need <= attrs({x})

    levels = [("interrupts", deep)]
    bad = fl.prove(levels, acts) if acts else why
    if bad and acts:
        # printed straight from the nested lists
        bad2 = fl.prove([("peripherals", lambda x: x.k == "P" and gchain(x) == PER and chain_of(x)[-1:] == ["elem"]), ("interrupts", lambda x: x.k == "P" and gchain(x) == INT and chain_of(x)[-1:] == ["elem"])], acts)
        bad = bad2 and bad
    rep.require(not bad, label + "/line", "no complete line for each interrupt: %s" % bad)
    rep.count("lines", len(acts))
    if not set(acts) & set(prints):
        r = fl.cfg.reach([(root, root.body.entry, 0)], avoid=set(prints) | fl.errs)
        rep.require(prints and not any(n[0] is root and root.body.blocks[n[1]][1][0] == "ret" for n in r), label + "/printed", "the lines can be left unprinted")
    # collecting the list: everything handed out goes on
    inner = {"peripherals": [], "interrupts": []}
    for name, path in direct:
        inner[name] = fl.handouts(lambda x: x.k == "P" and gchain(x) == path and chain_of(x)[-1:] == ["elem"])
    for name, path in sorted(direct):
        go = {(f, bb, 0) for f, bb, n, t in outputs(fl) if made_of(t, INT) and not (n in ("insert", "entry") and any(y.k == "O" and y.b == "map" for y in payload(eng, f.calls[bb][1][0])))}
        if name == "peripherals":
            go |= {fl.node(h) for h in inner["interrupts"]}
        # moved on as a whole
        for h in inner[name]:
            bad = fl.must([h], go) or fl.early([h]) or fl.drops(h)
            rep.require(not bad, label + "/collect " + name, "%s are left out at %s" % (name, bad))
    for f, bb, n, cal, args, dest in fl.calls(*DROP, "filter", "partition", "group_by", "collect", "from_iter"):
        if not args or not any(made_of({y}, INT) or made_of({y}, PER) for y in args[0]):
            continue
        if n in ("collect", "from_iter"):
            if dest[0] in f.cells and any(y.k == "O" and y.b in ("map", "set") for y in f.cells[dest[0]].v):
                rep.violation(label + "/kept", "%s %s: interrupts with the same key are merged" % (f.n, f.loc(bb)))
            continue
        if fl.keeps(f, bb, n):
            continue
        if n in ("find", "position", "first", "last", "find_map"):
            continue
        rep.violation(label + "/kept", "%s %s: interrupts can be left out (%s)" % (f.n, f.loc(bb), n))
    # order
    sorts = set()
    for f, bb, n, cal, args, dest in fl.calls():
        if n.startswith("sort") and args and made_of(args[0], INT):
            if n in ("sort", "sort_unstable"):
                sorts.add((f, bb, 0))
                continue
            rs = [x for (key, m), kid in f.kids.items() if key[0] == bb for x in kid.ret.v]
            good = bool(rs)
            for x in rs:
                if "key" in n:
                    first = x.cells[0].v if x.k == "O" and x.b == "tuple" and 0 in x.cells else {x}
                    good = good and all(y.k == "P" and gchain(y) == INT + ("value",) for y in flat_refs(first))
                else:
                    good = good and INT + ("value",) in attrs({x})
            if good:
                sorts.add((f, bb, 0))
            else:
                rep.violation(label + "/order", "%s %s: the interrupts are not sorted by their number" % (f.n, f.loc(bb)))
    ordered = any(y.k == "O" and y.b in ("map", "heap") for f, bb, n, cal, args, dest in fl.calls("insert", "entry", "collect") for a in args[:1] for y in payload(eng, a))
    if not sorts and ordered:
        return fl
    pts = [(f, bb, 1) for f, bb, n, cal, args, dest in fl.calls("from_reader", "parse", "from_str")]
    r = fl.cfg.reach(pts, avoid=sorts | fl.errs)
    rep.require(sorts and not any(p in r for p in prints), label + "/order", "interrupts are printed without having been sorted by their number")
    return fl


def whole(x):
    """Attributes an aggregate gives access to (whole elements give all of theirs)."""
    at = attrs({x})
    if INT in at:
        at |= {INT + (k,) for k in ("name", "value", "description")}
    return at


def check(rep):
    fl = run(rep, "interrupts", disc, NEED)
    fl2 = run(rep, "interrupts with description", disc_desc, NEED | {INT + ("description",)})
    for x in (fl, fl2):
        rep.count("scenarios")
        rep.count("frames", len(x.eng.frames))
    return ("The interrupts command is analysed from its entry point: on every path each interrupt handed out while the list is collected goes into it, the list is sorted by the interrupts' numbers before it is printed, "
            "and each entry of it passes a print statement with its number, name, description and peripheral.")
