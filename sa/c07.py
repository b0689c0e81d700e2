"""The rules of one block take effect in a fixed order, whatever their order in the document."""
from core import *
import c10

S = "$str"
DEV = [
    ("_delete", "S"), ("_copy", {"N": {"from": "M"}}), ("_modify", {"P": {"description": S}}), ("_clear_fields", "S"),
    ("_add", {"N": {"description": S}}), ("_derive", {"N": "M"}), ("_rebase", {"N": "M"}), ("P", {"_prefix": S}),
]
BLK = [
    ("_delete", "S"), ("_copy", {"N": {"_from": "M"}}), ("_strip", S), ("_strip_end", S), ("_prefix", S), ("_suffix", S), ("_modify", {"R": {"size": "$int"}}),
    ("_clear_fields", "S"), ("_add", {"N": {"description": S}}), ("_derive", {"N": "M"}),
]
PER = BLK + [
    ("R", {"_prefix": S}), ("_expand_array", {"R": {}}), ("_array", {"R": {"name": S}}), ("_cluster", {"C%s": {"R": {"name": S}}}),
    ("_clusters", {"C": {"_prefix": S}}), ("_expand_cluster", ["C"]),
]
CLU = BLK + [("R", {"_prefix": S}), ("_expand_array", {"R": {}}), ("_array", {"R": {"name": S}}), ("_cluster", {"D%s": {"R": {"name": S}}})]
REG = [
    ("_delete", "S"), ("_strip", S), ("_strip_end", S), ("_prefix", S), ("_suffix", S), ("_clear", "S"), ("_modify", {"F": {"description": S}}), ("_add", {"N": {"description": S}}),
    ("_derive", {"N": "M"}), ("_merge", ["F"]), ("_split", ["F"]), ("F", {"E": ["$int", S]}), ("_array", {"F": {"name": S}}),
]
LEVELS = [
    ("device", lambda h: h, DEV),
    ("peripheral", lambda h: {"P": h}, PER),
    ("cluster", lambda h: {"P": {"_clusters": {"C": h}}}, CLU),
    ("register", lambda h: {"P": {"R": h}}, REG),
]
FREE = [{"_strip", "_strip_end"}, {"_prefix", "_suffix"}, {"_derive", "_rebase"}]


def hook(c):
    """Registers are not clusters: a name addressed as a register matches no cluster and the other way round."""
    if c.n == MATCH:
        own = {owner_of(x) for x in leaves(c.args[1]) if x.k == "P" and x.b == "name" and is_dev(x)}
        sp = match_spec(c)
        if own == {"Cluster"} and "R" in sp or own == {"Register"} and "C" in sp:
            return {c.eng.FALSE}
    return None


def events(r):
    return {pkey(e.f, e.bb): e for e in effects(r.eng)}


def ancestors(f, bb):
    """[(frame, block)] from the event outwards."""
    out = []
    while f is not None:
        out.append((f, bb))
        bb = f.key[0] if isinstance(f.key, tuple) else None
        f = f.parent
    return out


def check(rep):
    for level, ctx, keys in LEVELS:
        base = set(events(patch_run(ctx({}), hook=hook)))
        own = {}
        for k, frag in keys:
            ev = events(patch_run(ctx({k: frag}), hook=hook))
            own[k] = {p for p in ev if p not in base}
            rep.require(own[k], "%s/%s" % (level, k), "%s: the `%s` rule has no effect on the device" % (level, k))
            rep.count("events", len(own[k]))
        r = patch_run(ctx(dict(keys)), hook=hook)
        all_ = events(r)
        cache = {}
        for i, (a, _) in enumerate(keys):
            for b, _ in keys[i + 1:]:
                if {a, b} in FREE:
                    continue
                key = "%s/%s before %s" % (level, a, b)
                rep.ok(key)
                for pa in own[a] - own[b]:
                    if pa not in all_:
                        rep.violation(key, "%s: the effect of `%s` at %s is lost when the other rules are present" % (level, a, pa[0][-80:]))
                        continue
                    for pb in own[b] - own[a]:
                        if pb not in all_:
                            continue
                        ea, eb = all_[pa], all_[pb]
                        ca = dict((f, bb) for f, bb in ancestors(ea.f, ea.bb))
                        for f, bb in ancestors(eb.f, eb.bb):
                            if f in ca:
                                break
                        if ca[f] == bb:
                            continue
                        ck = (f, bb)
                        if ck not in cache:
                            cache[ck] = local_reach(f, [bb])
                        if ca[f] in cache[ck]:
                            rep.violation(key, "%s: `%s` (%s) can still take effect after `%s` (%s) in %s: %s -> %s"
                                          % (level, a, ea.f.loc(ea.bb), b, eb.f.loc(eb.bb), f.n, f.loc(bb), f.loc(ca[f])))
        rep.count("levels")
        rep.count("frames", len(r.eng.frames))
        rep.samples.append({"level": level, "order": [k for k, _ in keys], "events": {k: len(v) for k, v in own.items()}})
    rep.rule = "events (device mutations) of an earlier rule are not reachable, within one activation of their common caller, from an event of a later rule"
    return ("For every level (device, peripheral, cluster, register) the mutations of the device caused by each rule key are found by analysing a document with just that key; in the analysis of the "
            "document with all keys, no control-flow path of the common caller leads from a mutation of a later key to one of an earlier key.")


ASSUME = ["order between _strip/_strip_end, _prefix/_suffix and _derive/_rebase is not part of the property"]
