"""`_add` rules create exactly one element, named by the key of the rule, with exactly the attributes given."""
from core import *
import c10
from c10 import run, groups, DIM, PERIPHERAL, INTERRUPT, BLOCK, CLUSTER, REGISTER, FIELD, BITS


def without(d, *ks):
    return {k: v for k, v in d.items() if k not in ks}


P = {("Peripheral", "name"): "P"}
R = {("Register", "name"): "R"}
C = {("Cluster", "name"): "C"}
I = {("Interrupt", "name"): "I"}
F = {("Field", "name"): "F"}


def levels():
    per = without(PERIPHERAL, "name")
    reg = without(REGISTER, "name")
    clu = without(CLUSTER, "name")
    inr = without(INTERRUPT, "name")
    fld = without(FIELD, "name")
    yield "_add peripheral", lambda h: {"_add": {"P": h}}, "/_add/P", [per, DIM], P
    yield "_add peripheral derivedFrom", lambda h: {"_add": {"P": h}}, "/_add/P", [{"derivedFrom": c10.V("$str", "Peripheral.derived_from")}], P
    yield "_add peripheral registers", lambda h: {"_add": {"P": {"registers": {"R": h}}}}, "/_add/P/registers/R", [reg, DIM], {**P, **R}
    yield "_add peripheral fields", lambda h: {"_add": {"P": {"registers": {"R": {"fields": {"F": h}}}}}}, "/_add/P/registers/R/fields/F", [fld, DIM, *BITS.values()], {**P, **R, **F}
    yield "_add peripheral interrupts", lambda h: {"_add": {"P": {"interrupts": {"I": h}}}}, "/_add/P/interrupts/I", [inr], {**P, **I}
    yield "_add peripheral addressBlock", lambda h: {"_add": {"P": {"addressBlock": h}}}, "/_add/P/addressBlock", [BLOCK], P
    yield "_add peripheral addressBlocks", lambda h: {"_add": {"P": {"addressBlocks": [h]}}}, "/_add/P/addressBlocks/0", [BLOCK], P
    # derived: everything but what a derived peripheral takes from its base
    yield "_add peripheral derived", lambda h: {"_add": {"P": {"derivedFrom": "$str", **h}}}, "/_add/P", [{k: v for k, v in per.items() if k not in c10.props("")}, DIM], P
    yield "_add R", lambda h: {"P": {"_add": {"R": h}}}, "/P/_add/R", [reg, DIM], R
    yield "_add R fields", lambda h: {"P": {"_add": {"R": {"fields": {"F": h}}}}}, "/P/_add/R/fields/F", [fld, DIM, *BITS.values()], {**R, **F}
    yield "_add _registers", lambda h: {"P": {"_add": {"_registers": {"R": h}}}}, "/P/_add/_registers/R", [reg, DIM], R
    yield "_add _clusters", lambda h: {"P": {"_add": {"_clusters": {"C": h}}}}, "/P/_add/_clusters/C", [clu, DIM], C
    yield "_add _clusters registers", lambda h: {"P": {"_add": {"_clusters": {"C": {"registers": {"R": h}}}}}}, "/P/_add/_clusters/C/registers/R", [reg, DIM], {**C, **R}
    yield "_add _interrupts", lambda h: {"P": {"_add": {"_interrupts": {"I": h}}}}, "/P/_add/_interrupts/I", [inr], I
    yield "_add field", lambda h: {"P": {"R": {"_add": {"F": h}}}}, "/P/R/_add/F", [fld, DIM, *BITS.values()], F


def disc(x, adt):
    return c10.disc(x, adt)


def check(rep):
    c10.NOCLUSTER.append(1)
    for name, ctx, pfx, tables, names in levels():
        for t in tables:
            for g in groups(t):
                run(rep, name, ctx, pfx, g, forall=False, names=names, also={("Register", "fields"), ("Cluster", "children"), ("Peripheral", "registers")} | ({("Peripheral", "derived_from")} if name.endswith(" derived") else set()))
            if t not in BITS.values():
                run(rep, name + " (all keys)", ctx, pfx, t, forall=False, names=names, together=True)
    c10.NOCLUSTER.clear()
    rep.rule = RULE
    return EXPL


RULE = ("for every `_add` form and every attribute key: the element handed to the insertion carries the value of that key (and nothing else) in exactly the "
        "SVD attribute the key names, its name is the key of the rule, every attribute that was not given stays unset, and every successful run of the rule performs the insertion")
EXPL = ("rustc MIR of svdtools::patch abstractly interpreted from patch::process_reader over one abstract patch document per (`_add` form, attribute key); "
        "`rules` documents, `keys` attribute keys, `frames` analysed function instances; obligations are (form, key, attribute) value/provenance facts plus must-happen facts on the interprocedural CFG")
ASSUME = ["bodies of svd-rs builders are modelled: a builder setter stores its argument in the attribute of the same name, build() keeps them",
          "device has at least the containers the rule addresses (registers, fields, interrupts present); clusters do not match the register spec"]
