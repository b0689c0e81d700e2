"""Models of library functions for the abstract interpreter: value flow and branch-relevant behaviour of std,
hashlink, yaml-rust2, anyhow, globset and svd-rs functions. A function without a model is opaque: its result is a
fresh symbol depending on all its arguments, closures passed to it are analysed with symbolic arguments and
`&mut` arguments are havocked."""
import re

from engine import OPTION, RESULT, CFLOW, YAML, YVAR

MODELS = {}
ITERS = {}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


def O(*names):
    return ["std::option::Option::<T>::" + n for n in names]


def R(*names):
    return ["std::result::Result::<T, E>::" + n for n in names]


def It(*names):
    return ["std::iter::Iterator::" + n for n in names]


def St(*names):
    return ["core::str::<impl str>::" + n for n in names] + ["std::str::<impl str>::" + n for n in names]


def Sl(*names):
    return ["core::slice::<impl [T]>::" + n for n in names] + ["std::slice::<impl [T]>::" + n for n in names]


def Ve(*names):
    return ["std::vec::Vec::<T, A>::" + n for n in names] + ["std::vec::Vec::<T>::" + n for n in names]


# ------------------------------------------------------------------ identity-like
IDENT = [
    "std::ops::DerefMut::deref_mut", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
    "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::string::String::as_str",
    "std::string::String::as_mut_str", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "std::path::Path::new", "std::path::PathBuf::as_path", "std::path::Path::to_path_buf",
    "std::hint::must_use", "anyhow::__private::must_use", "std::borrow::Cow::<'_, B>::into_owned", "std::string::String::into_boxed_str", "std::convert::identity",
    "std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new", "std::string::String::into_bytes", "std::string::String::as_bytes",
    "core::str::<impl str>::as_bytes", "std::str::<impl str>::into_string", "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec",
    "std::cell::RefCell::<T>::new", "std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut", "std::cell::RefCell::<T>::into_inner",
    "normpath::BasePath::as_path", "std::path::PathBuf::into_os_string", "std::ffi::OsStr::new", "std::path::Path::as_os_str",
    "std::iter::Iterator::by_ref", "std::ops::Deref::deref", "svd_rs::PeripheralInfo::all_registers", "std::fmt::Arguments::<'a>::from_str",
]


def ident(c):
    return c.a(0)


for _n in IDENT:
    MODELS[_n] = ident
del MODELS["svd_rs::PeripheralInfo::all_registers"]


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def deref(c):
    out = set()
    for x in c.args[0]:
        if x.k == "R":
            # a reference to a container: the container is the value
            out |= c.deref({x})
        elif x.k == "O" and x.b == "adt" and x.c[0] == "svd_rs::MaybeArray":
            out |= c.get(x, 0)
        else:
            out.add(x)
    # a MaybeArray behind a reference
    o2 = set()
    for x in out:
        if x.k == "O" and x.b == "adt" and x.c[0] == "svd_rs::MaybeArray":
            o2 |= c.deref(c.get(x, 0))
        else:
            o2.add(x)
    return o2


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec")
def clone(c):
    # a copy is a fresh container so that later mutation of one does not reach the other
    out = set()
    for x in c.a(0):
        if x.k == "O" and x.b == "vec":
            o = c.obj("vec", None, "cl%d" % x.id) if not any(c.f.id == 0 for _ in ()) else x
            c.put(o, "elem", c.get(x, "elem"))
            out.add(o)
        else:
            out.add(x)
    return out


@model("std::string::ToString::to_string")
def to_string(c):
    t = c.eng.T[c.callee["a"][0]] if c.callee.get("a") else {}
    if t.get("k") in ("str",) or t.get("n") in ("std::string::String",) or (t.get("t") or "").startswith(("str", "&str", "std::borrow::Cow")):
        return c.a(0)
    k = c.a(0)
    if len(k) == 1 and next(iter(k)).k == "K" and next(iter(k)).a in ("str",):
        return k
    return {c.node()}


@model("std::convert::Into::into", "std::convert::From::from", "std::string::String::from", "std::path::PathBuf::from")
def into(c):
    a = [c.eng.T[x] for x in c.callee.get("a", ())]
    src, dst = (a[0], a[1]) if len(a) > 1 else (None, None)
    if c.n.endswith("From::from") and len(a) > 1:
        src, dst = a[1], a[0]
    v = c.a(0)
    if dst is not None and dst.get("n") == OPTION and src.get("n") != OPTION:
        return c.some(v)
    if dst is not None and dst.get("n") == "svd_rs::EnumeratedValues":
        return {c.node()}
    if dst is not None and dst.get("n") == "anyhow::Error":
        return {c.node()}
    if dst is not None and dst.get("n") == "std::vec::Vec":
        out = set()
        for x in v:
            if x.k == "O" and x.b in ("array", "seq"):
                o = c.obj("vec", None, "fa%d" % x.id)
                c.put(o, "elem", c.eng.elems(c, x, "fa"))
                out.add(o)
            else:
                out.add(x)
        return out
    # service enumerations (svd_parser::expand etc.): keep the value but remember the conversion
    return v


# ------------------------------------------------------------------ Option / Result
@model("std::ops::Try::branch")
def branch(c):
    t = c.eng.T[c.callee["a"][0]].get("n")
    out = set()
    if t == OPTION:
        p, none = c.option(c.args[0])
        if p:
            o = c.obj("adt", (CFLOW, 0), "cont")
            c.put(o, 0, p)
            out.add(o)
        if none:
            o = c.obj("adt", (CFLOW, 1), "brk")
            c.put(o, 0, {c.none()})
            out.add(o)
        return out
    if t == RESULT:
        ok, er = c.result(c.args[0])
        if ok:
            o = c.obj("adt", (CFLOW, 0), "cont")
            c.put(o, 0, ok)
            out.add(o)
        if er:
            o = c.obj("adt", (CFLOW, 1), "brk")
            c.put(o, 0, c.err(er))
            out.add(o)
        return out
    return None


@model("std::ops::FromResidual::from_residual")
def from_residual(c):
    t = c.eng.T[c.callee["a"][0]].get("n") if c.callee.get("a") else None
    if t == OPTION:
        return {c.none()}
    ok, er = c.result(c.args[0])
    if er:
        return c.err(er)
    if not er and any(x.k == "U" and x.a == OPTION for x in c.a(0)):
        return {c.none()}
    return c.err({c.node()})


@model("std::ops::Try::from_output")
def from_output(c):
    t = c.eng.T[c.callee["a"][0]].get("n")
    return c.some(c.args[0]) if t == OPTION else c.ok(c.args[0]) if t == RESULT else None


@model("anyhow::Ok")
def aok(c):
    return c.ok(c.args[0])


@model(*O("map"))
def o_map(c):
    p, none = c.option(c.args[0])
    out = set()
    if p:
        out |= c.some(c.call(c.args[1], [p], "map", not none))
    if none and not c.resumed:
        out.add(c.none())
    return out


@model(*O("and_then"))
def o_and_then(c):
    p, none = c.option(c.args[0])
    out = set()
    if p:
        out |= c.call(c.args[1], [p], "at", not none)
    if none and not c.resumed:
        out.add(c.none())
    return out


@model(*O("and"))
def o_and(c):
    p, none = c.option(c.args[0])
    return (set(c.args[1]) if p else set()) | ({c.none()} if none else set())


@model(*O("or"))
def o_or(c):
    p, none = c.option(c.args[0])
    return c.some(p) | (set(c.args[1]) if none else set())


@model(*O("or_else"))
def o_or_else(c):
    p, none = c.option(c.args[0])
    out = c.some(p)
    if none:
        out |= c.call(c.args[1], [], "oe", not p)
    return out


@model(*O("xor"))
def o_xor(c):
    p, none = c.option(c.args[0])
    q, n2 = c.option(c.args[1])
    return c.some(p | q) | {c.none()}


@model(*O("filter"))
def o_filter(c):
    p, none = c.option(c.args[0])
    out = set()
    if p:
        t, f = c.bools(c.call(c.args[1], [p], "fl", not none))
        if t:
            out |= c.some(p)
        if f:
            out.add(c.none())
    if none:
        out.add(c.none())
    return out


@model(*O("is_some"))
def o_is_some(c):
    p, none = c.option(c.args[0])
    return c.tbool(bool(p), none)


@model(*O("is_none"))
def o_is_none(c):
    p, none = c.option(c.args[0])
    return c.tbool(none, bool(p))


@model(*O("is_some_and"))
def o_is_some_and(c):
    p, none = c.option(c.args[0])
    t = f = False
    if p:
        t, f = c.bools(c.call(c.args[1], [p], "isa", not none))
    return c.tbool(t, f or none)


@model(*O("is_none_or"))
def o_is_none_or(c):
    p, none = c.option(c.args[0])
    t = f = False
    if p:
        t, f = c.bools(c.call(c.args[1], [p], "ino", not none))
    return c.tbool(t or none, f)


@model(*O("ok_or"))
def o_ok_or(c):
    p, none = c.option(c.args[0])
    return c.ok(p) | (c.err(c.args[1]) if none else set())


@model(*O("ok_or_else"))
def o_ok_or_else(c):
    p, none = c.option(c.args[0])
    out = c.ok(p)
    if none:
        out |= c.err(c.call(c.args[1], [], "ooe", not p))
    return out


@model(*O("unwrap", "expect"))
def o_unwrap(c):
    p, none = c.option(c.args[0])
    if none:
        c.eng.panics[(c.f, c.bb, c.tag)] = (c.n, c.args)
    return p


@model(*O("unwrap_unchecked"))
def o_unwrap_u(c):
    return c.option(c.args[0])[0]


SVD_DEFAULTS = {"Access": "ReadWrite", "Usage": "ReadWrite", "Endian": "Little", "AddressBlockUsage": "Registers", "ReadAction": "Modify", "ModifiedWriteValues": "Modify", "Protection": "NonSecure"}


def default_of(c, ty):
    e = c.eng
    t = e.T[ty] if ty is not None else {}
    k = t.get("k")
    n = t.get("n", "")
    if k == "bool":
        return {e.FALSE}
    if k in ("int", "uint"):
        return {e.const("int", 0)}
    if n == OPTION:
        return {e.NONE}
    if n.startswith("svd_rs::") and n[8:] in SVD_DEFAULTS and n in e.adts:
        return {e.unitv(n, e.variant_index(n, SVD_DEFAULTS[n[8:]]))}
    if n == "std::string::String" or t.get("t") == "&str":
        return {e.const("str", "")}
    if n == "std::vec::Vec":
        return {c.obj("vec", None, "dflt")}
    if n in MAPS:
        return {c.obj("map", None, "dflt")}
    if k == "tuple" and not t.get("a"):
        return {e.UNIT}
    return {c.node("Default", [], tag="dflt")}


@model("std::default::Default::default")
def default(c):
    m = c.callee.get("inst")
    if c.dty is None:
        return None
    return default_of(c, c.dty)


@model(*O("unwrap_or"))
def o_unwrap_or(c):
    p, none = c.option(c.args[0])
    return p | (set(c.args[1]) if none else set())


@model(*O("unwrap_or_else"))
def o_unwrap_or_else(c):
    p, none = c.option(c.args[0])
    return p | (c.call(c.args[1], [], "uoe", not p) if none else set())


@model(*O("unwrap_or_default"))
def o_unwrap_or_default(c):
    p, none = c.option(c.args[0])
    return p | (default_of(c, c.dty) if none else set())


@model(*O("map_or"))
def o_map_or(c):
    p, none = c.option(c.args[0])
    return (c.call(c.args[2], [p], "mo", not none) if p else set()) | (set(c.args[1]) if none else set())


@model(*O("map_or_else"))
def o_map_or_else(c):
    p, none = c.option(c.args[0])
    return (c.call(c.args[2], [p], "moe", not none) if p else set()) | (c.call(c.args[1], [], "moe0", not p) if none else set())


@model(*(O("as_ref", "as_deref", "as_slice", "cloned", "copied", "as_pin_ref") + ["std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied",
        "std::option::Option::<&mut T>::cloned", "std::option::Option::<&mut T>::copied", "std::result::Result::<&T, E>::cloned", "std::result::Result::<&T, E>::copied"] + R("as_ref", "as_deref", "cloned", "copied")))
def o_ident(c):
    return c.a(0)


@model(*O("as_mut", "as_deref_mut"))
def o_as_mut(c):
    out = set()
    for x in c.a(0):
        if x.k == "O" and x.b == "adt" and x.c == (OPTION, 1):
            out |= c.some({c.eng.ref(c.eng.ocell(x, 0))}, "am%d" % x.id)
        else:
            out.add(x)
    return out


@model(*R("as_mut", "as_deref_mut"))
def r_as_mut(c):
    return c.a(0)


@model(*O("take"))
def o_take(c):
    return c.a(0) | {c.none()}


@model(*O("replace", "insert", "get_or_insert", "get_or_insert_with", "get_or_insert_default"))
def o_insert(c):
    nm = c.n.rsplit("::", 1)[-1]
    if nm == "get_or_insert_with":
        v = c.call(c.args[1], [], "goi")
    elif nm == "get_or_insert_default":
        v = {c.node("Default", [], tag="d")}
    else:
        v = set(c.args[1])
    old = c.a(0)
    s = c.some(v)
    for x in c.args[0]:
        if x.k == "R":
            c.eng.join(x.cell, s)
        elif x.k in ("P", "S", "N"):
            if x.cell is None:
                from engine import Cell
                x.cell = Cell()
            c.eng.join(x.cell, s)
    if nm == "replace":
        return old
    p, _ = c.option(old)
    r = set()
    for x in s:
        r.add(c.eng.ref(c.eng.ocell(x, 0)))
    return p | r


@model(*O("zip"))
def o_zip(c):
    p, n1 = c.option(c.args[0])
    q, n2 = c.option(c.args[1])
    out = set()
    if p and q:
        t = c.obj("tuple", None, "zip")
        c.put(t, 0, p)
        c.put(t, 1, q)
        out |= c.some({t})
    if n1 or n2:
        out.add(c.none())
    return out


@model("std::option::Option::<std::option::Option<T>>::flatten", *O("flatten"))
def o_flatten(c):
    p, none = c.option(c.args[0])
    return c.deref(p) | ({c.none()} if none else set())


@model("std::option::Option::<std::result::Result<T, E>>::transpose")
def o_transpose(c):
    p, none = c.option(c.args[0])
    out = set()
    if none:
        out |= c.ok({c.none()}, "n")
    if p:
        ok, er = c.result(p)
        if ok:
            out |= c.ok(c.some(ok), "s")
        out |= c.err(er)
    return out


@model("std::result::Result::<std::option::Option<T>, E>::transpose")
def r_transpose(c):
    ok, er = c.result(c.args[0])
    out = set()
    if ok:
        p, none = c.option(ok)
        if p:
            out |= c.some(c.ok(p), "s")
        if none:
            out.add(c.none())
    if er:
        out |= c.some(c.err(er), "e")
    return out


@model(*O("iter", "iter_mut", "into_iter"))
def o_iter(c):
    return mkiter(c, "src", {"src": c.args[0]})


@model(*O("unzip"))
def o_unzip(c):
    return None


@model(*R("map"))
def r_map(c):
    ok, er = c.result(c.args[0])
    out = c.err(er)
    if ok:
        out |= c.ok(c.call(c.args[1], [ok], "rmap", not er))
    return out


@model(*R("map_err"))
def r_map_err(c):
    ok, er = c.result(c.args[0])
    out = c.ok(ok)
    if er:
        out |= c.err(c.call(c.args[1], [er], "rme", not ok))
    return out


@model(*R("and_then"))
def r_and_then(c):
    ok, er = c.result(c.args[0])
    out = c.err(er)
    if ok:
        out |= c.call(c.args[1], [ok], "rat", not er)
    return out


@model(*R("and"))
def r_and(c):
    ok, er = c.result(c.args[0])
    return c.err(er) | (set(c.args[1]) if ok else set())


@model(*R("or"))
def r_or(c):
    ok, er = c.result(c.args[0])
    return c.ok(ok) | (set(c.args[1]) if er else set())


@model(*R("or_else"))
def r_or_else(c):
    ok, er = c.result(c.args[0])
    out = c.ok(ok)
    if er:
        out |= c.call(c.args[1], [er], "roe", not ok)
    return out


@model(*R("ok"))
def r_ok(c):
    ok, er = c.result(c.args[0])
    return c.some(ok) | ({c.none()} if er else set())


@model(*R("err"))
def r_err(c):
    ok, er = c.result(c.args[0])
    return c.some(er) | ({c.none()} if ok else set())


@model(*R("is_ok"))
def r_is_ok(c):
    ok, er = c.result(c.args[0])
    return c.tbool(bool(ok), bool(er))


@model(*R("is_err"))
def r_is_err(c):
    ok, er = c.result(c.args[0])
    return c.tbool(bool(er), bool(ok))


@model(*R("is_ok_and", "is_err_and"))
def r_is_ok_and(c):
    ok, er = c.result(c.args[0])
    if c.n.endswith("is_err_and"):
        ok, er = er, ok
    t = f = False
    if ok:
        t, f = c.bools(c.call(c.args[1], [ok], "roa"))
    return c.tbool(t, f or bool(er))


@model(*R("unwrap", "expect"))
def r_unwrap(c):
    ok, er = c.result(c.args[0])
    if er:
        c.eng.panics[(c.f, c.bb, c.tag)] = (c.n, c.args)
    return ok


@model(*R("unwrap_err", "expect_err"))
def r_unwrap_err(c):
    ok, er = c.result(c.args[0])
    if ok:
        c.eng.panics[(c.f, c.bb, c.tag)] = (c.n, c.args)
    return er


@model(*R("unwrap_or"))
def r_unwrap_or(c):
    ok, er = c.result(c.args[0])
    return ok | (set(c.args[1]) if er else set())


@model(*R("unwrap_or_else"))
def r_unwrap_or_else(c):
    ok, er = c.result(c.args[0])
    return ok | (c.call(c.args[1], [er], "ruoe") if er else set())


@model(*R("unwrap_or_default"))
def r_unwrap_or_default(c):
    ok, er = c.result(c.args[0])
    return ok | (default_of(c, c.dty) if er else set())


@model(*R("map_or"))
def r_map_or(c):
    ok, er = c.result(c.args[0])
    return (c.call(c.args[2], [ok], "rmo") if ok else set()) | (set(c.args[1]) if er else set())


@model(*R("map_or_else"))
def r_map_or_else(c):
    ok, er = c.result(c.args[0])
    return (c.call(c.args[2], [ok], "rmoe") if ok else set()) | (c.call(c.args[1], [er], "rmoe0") if er else set())


@model(*R("inspect", "inspect_err"), *O("inspect"))
def r_inspect(c):
    if c.n.endswith("Option::<T>::inspect"):
        p, _ = c.option(c.args[0])
    else:
        ok, er = c.result(c.args[0])
        p = er if c.n.endswith("inspect_err") else ok
    if p:
        c.call(c.args[1], [p], "insp")
    return c.a(0)


@model(*R("iter", "iter_mut", "into_iter"))
def r_iter(c):
    return mkiter(c, "src", {"src": c.args[0]})


@model("anyhow::Context::with_context", "anyhow::Context::context")
def with_context(c):
    t = c.eng.T[c.callee["a"][0]].get("n")
    if t == OPTION:
        ok, none = c.option(c.args[0])
        er = {c.none()} if none else set()
    else:
        ok, er = c.result(c.args[0])
    out = c.ok(ok)
    if er:
        msg = c.call(c.args[1], [], "ctx", not ok) if c.n.endswith("with_context") else set(c.args[1])
        if msg:
            out |= c.err({c.node("with_context", [er, msg], tag="ctx")})
    return out


@model("core::bool::<impl bool>::then")
def b_then(c):
    t, f = c.bools(c.args[0])
    out = set()
    if t:
        out |= c.some(c.call(c.args[1], [], "then", not f))
    if f:
        out.add(c.none())
    return out


@model("core::bool::<impl bool>::then_some")
def b_then_some(c):
    t, f = c.bools(c.args[0])
    return (c.some(c.args[1]) if t else set()) | ({c.none()} if f else set())


@model("std::ops::Not::not")
def b_not(c):
    t, f = c.bools(c.args[0])
    ty = c.eng.T[c.callee["a"][0]]
    while ty["k"] == "ref":
        ty = c.eng.T[ty["a"][0]]
    if ty["k"] == "bool":
        return c.tbool(f, t)
    return None


@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def fn_call(c):
    args = []
    for t in c.a(1):
        if t.k == "O":
            n = max([k for k in t.cells if isinstance(k, int)], default=-1) + 1
            while len(args) < n:
                args.append(set())
            for i in range(n):
                args[i] |= c.get(t, i)
        elif t.k == "K":
            pass
    r = c.call(c.args[0], args, "fncall", True)
    return r


@model("std::mem::replace", "std::mem::take", "std::mem::swap")
def mem_replace(c):
    old = set(c.deref(c.args[0]))
    nm = c.n.rsplit("::", 1)[-1]
    if nm == "replace":
        new = set(c.args[1])
    elif nm == "take":
        new = default_of(c, c.dty)
    else:
        new = set(c.deref(c.args[1]))
        store(c, c.args[1], old)
    store(c, c.args[0], new)
    return {c.eng.UNIT} if nm == "swap" else old


def store(c, to, new):
    from engine import Cell
    for x in to:
        if x.k == "R":
            c.eng.join(x.cell, new)
        elif x.k in ("P", "S", "N"):
            if x.cell is None:
                x.cell = Cell()
            c.eng.join(x.cell, new)


# ------------------------------------------------------------------ comparisons
def fieldless(c, x):
    return x.k == "U" or (x.k == "K")


def eqval(c, s1, s2, depth=0):
    """-> (may be equal, may be different)"""
    t = f = False
    a, b = c.deref(s1), c.deref(s2)
    for x in a:
        for y in b:
            tt, ff = eq1(c, x, y, depth)
            t |= tt
            f |= ff
            if t and f:
                return t, f
    return t, f


def eq1(c, x, y, depth):
    if x.k == "Y" and x.a == "str" and x.c is not None and (y.k == "K" or y.k == "Y"):
        x = c.eng.const("str", x.c)
    if y.k == "Y" and y.a == "str" and y.c is not None and x.k == "K":
        y = c.eng.const("str", y.c)
    if x.k == "K" and y.k == "K":
        return (True, False) if x.b == y.b and x.a == y.a else (False, True)
    if x.k == "U" and y.k == "U":
        return (x.b == y.b, x.b != y.b)
    if x.k == "O" and x.b == "adt" and y.k == "U":
        return (x.c[1] == y.b, x.c[1] != y.b) if x.c[1] != y.b else (True, True)
    if y.k == "O" and y.b == "adt" and x.k == "U":
        return eq1(c, y, x, depth)
    if x.k == "O" and y.k == "O" and x.b == "adt" and y.b == "adt" and depth < 4:
        if x.c[1] != y.c[1]:
            return False, True
        t, f = True, False
        for k in x.cells:
            if k in y.cells:
                tt, ff = eqval(c, c.get(x, k), c.get(y, k), depth + 1)
                t = t and tt
                f = f or ff
        return t, f
    if x.k == "O" and y.k == "O" and x.b == "builder" and y.b == "builder":
        for k in set(x.cells) | set(y.cells):
            if not isinstance(k, str) or k.startswith("@"):
                continue
            # 0: surely unset, 1: surely set, 2: either
            sx, sy = (bset(c.get(z, k)) for z in (x, y))
            if {sx, sy} == {0, 1}:
                return False, True
            if (sx, sy) != (0, 0):
                return True, True
        return (True, False) if c.eng.is_settled(c.u) else (False, False)
    return True, True


def bset(v):
    u = any(x.k == "U" for x in v)
    o = any(x.k != "U" for x in v)
    return 2 if u and o else 1 if o else 0


@model("std::cmp::PartialEq::eq")
def eq(c):
    t, f = eqval(c, c.args[0], c.args[1])
    if t and f:
        return {c.node()}
    if not t and not f:
        return set()
    return c.tbool(t, f)


@model("std::cmp::PartialEq::ne")
def ne(c):
    t, f = eqval(c, c.args[0], c.args[1])
    if t and f:
        return {c.node()}
    if not t and not f:
        return set()
    return c.tbool(f, t)


# ------------------------------------------------------------------ strings
def kstr(c, i):
    s = c.a(i)
    out = []
    for x in s:
        if x.k == "K" and x.a in ("str", "char"):
            out.append(x.b if x.a == "str" else (chr(x.b) if isinstance(x.b, int) else x.b))
        elif x.k == "Y" and x.a == "str" and x.c is not None:
            out.append(x.c)
        else:
            return None
    return out


def strpred(name, fn):
    def m(c):
        a, b = kstr(c, 0), kstr(c, 1)
        if a is None or b is None:
            # a predicate closure or an opaque string
            for x in c.a(1):
                if x.k in ("O", "F") and x.b == "closure":
                    c.call({x}, [{c.node(tag="ch")}], "sp")
            return {c.node()}
        s = set()
        for p in a:
            for q in b:
                s.add(c.eng.TRUE if fn(p, q) else c.eng.FALSE)
        return s
    for n in St(name):
        MODELS[n] = m


strpred("starts_with", lambda a, b: a.startswith(b))
strpred("ends_with", lambda a, b: a.endswith(b))
strpred("contains", lambda a, b: b in a)


def charpred(name, fn):
    def m(c):
        vs = c.a(0)
        if not vs or not all(x.k == "K" and isinstance(x.b, int) and not isinstance(x.b, bool) and 0 <= x.b < 0x110000 for x in vs):
            return {c.node()}
        return {c.eng.TRUE if fn(chr(x.b)) else c.eng.FALSE for x in vs}
    for own in ("core::num::<impl u8>::", "core::char::methods::<impl char>::"):
        MODELS[own + name] = m


charpred("is_ascii_digit", lambda ch: "0" <= ch <= "9")
charpred("is_ascii_alphabetic", lambda ch: ch.isascii() and ch.isalpha())
charpred("is_ascii_alphanumeric", lambda ch: ch.isascii() and ch.isalnum())
charpred("is_numeric", lambda ch: ch.isnumeric())


@model(*St("strip_prefix", "strip_suffix"))
def strip_prefix(c):
    a, b = kstr(c, 0), kstr(c, 1)
    pre = c.n.endswith("strip_prefix")
    if a is None or b is None:
        nd = c.node()
        out = c.some({nd})
        out.add(c.none())
        return out
    out = set()
    pay = set()
    for p in a:
        for q in b:
            if (p.startswith(q) if pre else p.endswith(q)):
                pay.add(c.eng.const("str", p[len(q):] if pre else p[:len(p) - len(q)]))
            else:
                out.add(c.none())
    return out | c.some(pay)


@model(*St("is_empty"), "std::string::String::is_empty")
def str_is_empty(c):
    a = kstr(c, 0)
    if a is None:
        return {c.node()}
    return {c.eng.TRUE if p == "" else c.eng.FALSE for p in a}


@model(*St("len"), "std::string::String::len")
def str_len(c):
    a = kstr(c, 0)
    if a is None:
        return {c.node()}
    # texts of the abstract document are representatives: only emptiness is theirs to tell
    return {c.eng.const("int", 0) if not p else c.node("strlen") for p in a}


@model(*St("split", "rsplit", "splitn", "split_terminator"))
def str_split(c):
    i = 2 if c.n.endswith("splitn") else 1
    a, b = kstr(c, 0), kstr(c, i)
    o = c.obj("seq" if False else "iter", "lit", "split")
    if a is None or b is None or c.n.endswith("splitn"):
        nd = c.node()
        c.put(o, "v", {c.eng.proj(nd, "elem")})
    else:
        c.put(o, "v", {c.eng.const("str", w) for p in a for q in b for w in p.split(q)})
    return {o}


@model(*St("split_whitespace", "lines", "chars", "bytes", "char_indices", "match_indices", "split_ascii_whitespace", "matches", "rmatch_indices"))
def str_iter(c):
    nd = c.node()
    o = c.obj("iter", "lit", "stri")
    c.put(o, "v", {c.eng.proj(nd, "elem")})
    return {o}


@model(*St("split_once", "rsplit_once", "find", "rfind", "get", "parse", "split_at", "char_indices2"))
def str_opaque(c):
    if c.n.endswith("parse"):
        return c.ok({c.node(tag="v")}) | c.err({c.node("parse-error", tag="e")})
    if c.n.endswith("split_at"):
        t = c.obj("tuple", None, "sa")
        nd = c.node()
        c.put(t, 0, {c.eng.proj(nd, "0")})
        c.put(t, 1, {c.eng.proj(nd, "1")})
        return {t}
    if c.n.endswith("find"):
        a, b = kstr(c, 0), kstr(c, 1)
        if a is not None and b is not None:
            hits = {q in p for p in a for q in b}
            return (c.some({c.node(tag="v")}) if True in hits else set()) | ({c.none()} if False in hits else set())
    return c.some({c.node(tag="v")}) | {c.none()}


for _n in ("i64", "i32", "u64", "u32", "usize", "u8", "u16"):
    MODELS["core::num::<impl %s>::from_str_radix" % _n] = lambda c: c.ok({c.node(tag="v")}) | c.err({c.node("parse-error", tag="e")})


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def try_from(c):
    """Checked conversions between integer types."""
    a = [c.eng.T[x]["t"] for x in c.callee.get("a", ())]
    ints = {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"}
    if len(a) < 2 or not set(a[:2]) <= ints:
        return None
    dst, src = a[:2] if c.n.endswith("try_from") else (a[1], a[0])
    out, sy = set(), set()
    for x in c.a(0):
        if x.k == "K" and isinstance(x.b, int):
            w = int(dst[1:].replace("size", "64"))
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if dst[0] == "i" else (0, (1 << w) - 1)
            out |= c.ok({x}, "k") if lo <= x.b <= hi else c.err({c.node("out-of-range", tag="k")}, "k")
        else:
            sy.add(x)
    if sy:
        v = c.node("conv:%s->%s" % (src, dst), [sy], tag="v")
        out |= c.ok({v}, "v") | c.err({c.node("out-of-range", tag="e")}, "e")
    return out


@model("std::string::String::new")
def string_new(c):
    return {c.obj("str", None, "new")}


def strbuf_push(c):
    for x in c.a(0):
        if x.k == "O" and x.b == "str":
            for a in c.args[1:]:
                c.put(x, "elem", a)
        # a mutated constant/opaque string held in a variable
    nd = None
    for r in c.args[0]:
        if r.k == "R":
            hold = r.cell.v
            if any(x.k != "O" or x.b != "str" for x in hold):
                nd = c.node()
                c.eng.join(r.cell, {nd})
        elif r.k in ("P", "S", "N"):
            from engine import Cell
            if r.cell is None:
                r.cell = Cell()
            c.eng.join(r.cell, {c.node()})
    return {c.eng.UNIT}


for _n in ("push", "push_str", "insert", "insert_str", "truncate", "clear", "extend", "retain", "remove", "pop", "drain", "replace_range"):
    MODELS["std::string::String::" + _n] = strbuf_push
MODELS["std::string::String::drain"] = lambda c: (strbuf_push(c), {c.node(tag="dr")})[1]
MODELS["std::string::String::pop"] = lambda c: (strbuf_push(c), c.some({c.node(tag="pp")}) | {c.none()})[1]
MODELS["std::string::String::remove"] = lambda c: (strbuf_push(c), {c.node(tag="rm")})[1]


@model("std::ops::AddAssign::add_assign")
def add_assign(c):
    return strbuf_push(c)


# ------------------------------------------------------------------ iterators
def mkiter(c, kind, parts, tag=""):
    o = c.obj("iter", kind, tag)
    for k, v in parts.items():
        c.put(o, k, v)
    return {o}


def it(kind):
    def d(fn):
        ITERS[kind] = fn
        return fn
    return d


@it("lit")
def it_lit(c, x, tag):
    return set(c.get(x, "v"))


@it("src")
def it_src(c, x, tag):
    return c.elems(c.get(x, "src"), (tag, x.id))


def it_src_keys(c, x, tag):
    out = set()
    for e in c.elems(c.get(x, "src"), (tag, x.id)):
        out |= tuple_get(c, e, 0)
    return out


def tuple_get(c, e, i):
    if e.k == "O":
        return set(c.get(e, i))
    if e.k == "K":
        return set()
    return c.eng.proj_opaque(e, str(i), c.u)


ITERS["keys"] = it_src_keys


@it("values")
def it_values(c, x, tag):
    out = set()
    for e in c.elems(c.get(x, "src"), (tag, x.id)):
        out |= tuple_get(c, e, 1)
    return out


@it("map")
def it_map(c, x, tag):
    e = c.elems(c.get(x, "src"), (tag, x.id))
    if not e:
        return set()
    return c.call(c.get(x, "f"), [e], ("imap", x.id, tag))


@it("inspect")
def it_inspect(c, x, tag):
    e = c.elems(c.get(x, "src"), (tag, x.id))
    if e:
        c.call(c.get(x, "f"), [e], ("iinsp", x.id, tag))
    return e


@it("filter")
def it_filter(c, x, tag):
    """per-element filtering keeps predicates that depend on the element's identity exact"""
    e = c.elems(c.get(x, "src"), (tag, x.id))
    if not e:
        return set()
    out = set()
    r = c.call(c.get(x, "f"), [e], ("ifil", x.id, tag))
    if r and c.bools(r)[0]:
        out |= e
    return out


@it("filter_map")
def it_filter_map(c, x, tag):
    e = c.elems(c.get(x, "src"), (tag, x.id))
    if not e:
        return set()
    return c.option(c.call(c.get(x, "f"), [e], ("ifm", x.id, tag)))[0]


@it("map_while")
def it_map_while(c, x, tag):
    return it_filter_map(c, x, tag)


@it("flat_map")
def it_flat_map(c, x, tag):
    e = c.elems(c.get(x, "src"), (tag, x.id))
    if not e:
        return set()
    return c.elems(c.call(c.get(x, "f"), [e], ("iflm", x.id, tag)), ("fl", tag, x.id))


@it("flatten")
def it_flatten(c, x, tag):
    e = c.elems(c.get(x, "src"), (tag, x.id))
    return c.elems(e, ("flt", tag, x.id))


@it("enumerate")
def it_enumerate(c, x, tag):
    e = c.elems(c.get(x, "src"), (tag, x.id))
    if not e:
        return set()
    o = c.obj("tuple", None, "en%d" % x.id)
    c.put(o, 0, {c.node("index", [e], tag="idx%d" % x.id)})
    c.put(o, 1, e)
    return {o}


@it("zip")
def it_zip(c, x, tag):
    a = c.elems(c.get(x, "src"), (tag, x.id))
    b = c.elems(c.get(x, "b"), ("b", tag, x.id))
    if not a or not b:
        return set()
    o = c.obj("tuple", None, "zp%d" % x.id)
    c.put(o, 0, a)
    c.put(o, 1, b)
    return {o}


@it("chain")
def it_chain(c, x, tag):
    return c.elems(c.get(x, "src"), (tag, x.id)) | c.elems(c.get(x, "b"), ("b", tag, x.id))


@it("windows")
def it_windows(c, x, tag):
    e = c.elems(c.get(x, "src"), (tag, x.id))
    if not e:
        return set()
    o = c.obj("vec", None, "win%d" % x.id)
    c.put(o, "elem", e)
    return {o}


@it("from_fn")
def it_from_fn(c, x, tag):
    return c.option(c.call(c.get(x, "f"), [], ("iff", x.id, tag)))[0]


@it("opaque")
def it_opaque(c, x, tag):
    return {c.node("iter", [c.get(x, "src")], tag="io%d" % x.id)}


for _n, _k in (("map", "map"), ("filter", "filter"), ("filter_map", "filter_map"), ("flat_map", "flat_map"), ("inspect", "inspect"), ("map_while", "map_while"),
               ("take_while", "filter"), ("skip_while", "filter")):
    def _mk(k):
        def m(c):
            return mkiter(c, k, {"src": c.args[0], "f": c.args[1]})
        return m
    MODELS["std::iter::Iterator::" + _n] = _mk(_k)
# skip_while / take_while may keep anything the predicate does not settle
ITERS["maybe"] = lambda c, x, tag: (c.call(c.get(x, "f"), [e], ("imw", x.id, tag)) and e) if (e := c.elems(c.get(x, "src"), (tag, x.id))) else set()
MODELS["std::iter::Iterator::take_while"] = lambda c: mkiter(c, "maybe", {"src": c.args[0], "f": c.args[1]})
MODELS["std::iter::Iterator::skip_while"] = lambda c: mkiter(c, "maybe", {"src": c.args[0], "f": c.args[1]})

for _n in ("rev", "skip", "take", "step_by", "cloned", "copied", "peekable", "fuse", "cycle"):
    MODELS["std::iter::Iterator::" + _n] = lambda c: mkiter(c, "src", {"src": c.args[0]})
for _n in ("dedup", "dedup_by", "unique", "unique_by", "sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "sorted_unstable_by", "sorted_unstable_by_key", "sorted_by_cached_key"):
    MODELS["itertools::Itertools::" + _n] = lambda c: mkiter(c, "src", {"src": c.args[0]})
MODELS["std::iter::Iterator::enumerate"] = lambda c: mkiter(c, "enumerate", {"src": c.args[0]})
MODELS["std::iter::Iterator::flatten"] = lambda c: mkiter(c, "flatten", {"src": c.args[0]})
MODELS["std::iter::Iterator::zip"] = lambda c: mkiter(c, "zip", {"src": c.args[0], "b": c.args[1]})
MODELS["std::iter::zip"] = MODELS["std::iter::Iterator::zip"]
MODELS["std::iter::Iterator::chain"] = lambda c: mkiter(c, "chain", {"src": c.args[0], "b": c.args[1]})
MODELS["std::iter::once"] = lambda c: mkiter(c, "lit", {"v": c.args[0]})
MODELS["std::iter::repeat"] = lambda c: mkiter(c, "lit", {"v": c.args[0]})
MODELS["std::iter::empty"] = lambda c: mkiter(c, "lit", {})
MODELS["std::iter::from_fn"] = lambda c: mkiter(c, "from_fn", {"f": c.args[0]})


@model("std::iter::IntoIterator::into_iter")
def into_iter(c):
    out = set()
    for x in c.a(0):
        if x.k == "O" and (x.b == "iter" or (x.b == "adt" and (x.c[0].startswith("std::ops::Range") or (x.ty is not None and c.eng.T[x.ty].get("next"))))):
            out.add(x)
        elif x.k == "O" and x.b == "adt" and x.c[0] == "phf::Map":
            out |= mkiter(c, "lit", {"v": phf_tuples(c, [x])}, "phf%d" % x.id)
        else:
            out |= mkiter(c, "src", {"src": {x}}, "ii%d" % x.id)
    return out


for _n in Sl("iter", "iter_mut") + ["rayon::iter::IntoParallelRefIterator::par_iter", "rayon::iter::IntoParallelIterator::into_par_iter", "rayon::iter::IntoParallelRefMutIterator::par_iter_mut"]:
    MODELS[_n] = lambda c: mkiter(c, "src", {"src": c.args[0]})
for _n in Sl("windows"):
    MODELS[_n] = lambda c: mkiter(c, "windows", {"src": c.args[0]})
for _n in Sl("chunks", "chunks_exact", "rchunks"):
    MODELS[_n] = lambda c: mkiter(c, "windows", {"src": c.args[0]})
MODELS["rayon::iter::ParallelIterator::map"] = MODELS["std::iter::Iterator::map"]


def self_elems(c, tag):
    """Elements of the iterator passed as self; a local `next` applies to opaque values of a local type."""
    e = set()
    s = c.a(0)
    ty = c.callee["a"][0] if c.callee.get("a") else None
    nx = None
    if ty is not None:
        t = c.eng.T[ty]
        while t.get("k") == "ref":
            t = c.eng.T[t["a"][0]]
        nx = t.get("next")
    for x in s:
        if nx and x.k not in ("O",):
            r = c.eng.invoke(c, nx, [{x}], (c.bb, c.tag + ("next", tag)))
            e |= c.option(r)[0]
        else:
            e |= c.eng.elems(c, x, tag)
    return e


@model(*It("next", "last", "nth", "next_back", "nth_back", "min", "max"), "std::iter::DoubleEndedIterator::next_back", "std::iter::Peekable::<I>::peek", "std::iter::Peekable::<I>::next",
       "std::iter::DoubleEndedIterator::nth_back", "std::iter::DoubleEndedIterator::rfind2")
def i_next(c):
    e = self_elems(c, "nx")
    return c.some(e) | {c.none()}


@model(*It("find", "rfind", "min_by_key", "max_by_key", "min_by", "max_by", "reduce"), "std::iter::DoubleEndedIterator::rfind")
def i_find(c):
    e = self_elems(c, "fd")
    nm = c.n.rsplit("::", 1)[-1]
    if not e:
        return {c.none()} if c.eng.is_settled(c.u) else set()
    if nm in ("find", "rfind"):
        r = c.call(c.args[1], [e], "fdp")
        if not r:
            return {c.none()} if c.eng.is_settled(c.u) else set()
        t, f = c.bools(r)
        return (c.some(e) if t else set()) | ({c.none()} if f or not t or not c.resumed else set())
    if nm in ("min_by_key", "max_by_key"):
        c.call(c.args[1], [e], "mbk")
        return c.some(e) | {c.none()}
    if nm in ("min_by", "max_by"):
        c.call(c.args[1], [e, e], "mb")
        return c.some(e) | {c.none()}
    r = c.call(c.args[1], [e, e], "red")
    return c.some(e | r) | {c.none()}


@model(*It("find_map"))
def i_find_map(c):
    e = self_elems(c, "fm")
    if not e:
        return {c.none()} if c.eng.is_settled(c.u) else set()
    r = c.call(c.args[1], [e], "fmp")
    if not r:
        return {c.none()} if c.eng.is_settled(c.u) else set()
    p, _ = c.option(r)
    return c.some(p) | {c.none()}


@model(*It("position", "rposition"))
def i_position(c):
    e = self_elems(c, "ps")
    if not e:
        return {c.none()}
    t, f = c.bools(c.call(c.args[1], [e], "psp"))
    return (c.some({c.node()}) if t else set()) | ({c.none()} if f or not t or not c.resumed else set())


@model(*It("any"))
def i_any(c):
    e = self_elems(c, "an")
    if not e:
        return {c.eng.FALSE} if c.eng.is_settled(c.u) else set()
    r = c.call(c.args[1], [e], "anp")
    if not r:
        return {c.eng.FALSE} if c.eng.is_settled(c.u) else set()
    t, f = c.bools(r)
    if c.resumed:
        # the other elements: as in the run that is resumed
        if t and not f:
            return {c.eng.TRUE}
        return c.tbool(t or before(c)[0], f)
    # the iterator may be exhausted without an element, unless it runs over a constant table narrowed to the entries in question
    lit = all(x.k == "O" and x.b == "iter" and x.c == "lit" for x in c.a(0)) and getattr(c.eng, "table_keys", None) is not None
    return c.tbool(t, f or not lit)


@model(*It("all"))
def i_all(c):
    e = self_elems(c, "al")
    if not e:
        return {c.eng.TRUE} if c.eng.is_settled(c.u) else set()
    if surely(c) and len(c.a(0)) == 1:
        rs = [c.bools(r) for r in [c.call(c.args[1], [{y}], "alp%d" % i) for i, y in enumerate(e)] if r]
        if len(rs) < len(e):
            return set()
        return c.tbool(all(t for t, _ in rs), any(f for _, f in rs))
    r = c.call(c.args[1], [e], "alp")
    if not r:
        return {c.eng.TRUE} if c.eng.is_settled(c.u) else set()
    t, f = c.bools(r)
    if c.resumed:
        if f and not t:
            return {c.eng.FALSE}
        return c.tbool(t, f or before(c)[1])
    return c.tbool(t or not surely(c), f)


def before(c):
    """What the closure a continuation is inside of can answer at other times."""
    return c.bools(set().union(*[x.base.ret.v for x in c.f.preset.values() if x.base is not None]))


def surely(c):
    """Does the iterator hand out at least one element? (all elements of a non-empty literal list)"""
    src = [x for x in c.a(0)]
    if not src:
        return False
    for x in src:
        if not (x.k == "O" and x.b == "iter" and x.c == "src"):
            return False
        for y in c.deref(c.get(x, "src")):
            if not (y.k == "Y" and y.a == "arr" and y.c):
                return False
    return True


@model(*It("for_each"))
def i_for_each(c):
    e = self_elems(c, "fe")
    if e:
        c.call(c.args[1], [e], "fep")
    return {c.eng.UNIT}


@model(*It("try_for_each"))
def i_try_for_each(c):
    e = self_elems(c, "tfe")
    ok, er = c.result(c.call(c.args[1], [e], "tfep")) if e else (set(), set())
    if c.resumed and not any(x.ret.v for x in c.f.preset.values()):
        return set()
    out = c.ok({c.eng.UNIT}, "unit")
    if e:
        if c.resumed and er and not ok:
            out = set()
        out |= c.err(er)
    return out


@model(*It("fold"))
def i_fold(c):
    e = self_elems(c, "fo")
    acc = set(c.args[1])
    o = c.obj("acc", None, "fold")
    c.put(o, 0, acc)
    if e:
        r = c.call(c.args[2], [set(c.get(o, 0)), e], "fop")
        c.put(o, 0, r)
    return set(c.get(o, 0))


@model(*It("try_fold"))
def i_try_fold(c):
    e = self_elems(c, "tfo")
    o = c.obj("acc", None, "tfold")
    c.put(o, 0, set(c.args[1]))
    out = set()
    if e:
        r = c.call(c.args[2], [set(c.get(o, 0)), e], "tfop")
        ok, er = c.result(r)
        c.put(o, 0, ok)
        out |= c.err(er)
        if c.resumed and not ok and (er or not any(x.ret.v for x in c.f.preset.values())):
            return out
    return out | c.ok(set(c.get(o, 0)))


@model(*It("count", "sum", "product"))
def i_count(c):
    e = self_elems(c, "ct")
    if not e:
        return {c.eng.const("int", 0)} if c.eng.is_settled(c.u) else set()
    return {c.node(c.n, [e])}


@model(*It("unzip", "partition"))
def i_unzip(c):
    e = self_elems(c, "uz")
    t = c.obj("tuple", None, "uz")
    a, b = c.obj("vec", None, "uza"), c.obj("vec", None, "uzb")
    if c.n.endswith("partition"):
        if e:
            tr, fa = c.bools(c.call(c.args[1], [e], "pt"))
            if tr:
                c.put(a, "elem", e)
            if fa:
                c.put(b, "elem", e)
    else:
        for x in e:
            c.put(a, "elem", tuple_get(c, x, 0))
            c.put(b, "elem", tuple_get(c, x, 1))
    c.put(t, 0, {a})
    c.put(t, 1, {b})
    return {t}


MAPS = ("std::collections::HashMap", "std::collections::BTreeMap", "hashlink::LinkedHashMap", "hashlink::linked_hash_map::LinkedHashMap", "indexmap::IndexMap")


def container(c, e, ty, tag):
    t = c.eng.T[ty] if ty is not None else {}
    n = t.get("n", "")
    if n == RESULT:
        ok, er = set(), set()
        if e:
            ok, er = c.result(e)
        if c.resumed and not ok:
            if er:
                return c.err(er)
            if not any(x.ret.v for x in c.f.preset.values()):
                return set()
        return c.ok(container(c, ok, t["a"][0], tag + "r")) | c.err(er)
    if n == OPTION:
        none = False
        p = set()
        if e:
            p, none = c.option(e)
        return c.some(container(c, p, t["a"][0], tag + "o")) | ({c.none()} if none else set())
    if n in MAPS:
        o = c.obj("map", None, tag)
        for x in e:
            c.put(o, "key", tuple_get(c, x, 0))
            c.put(o, "val", tuple_get(c, x, 1))
        return {o}
    if n == "std::string::String":
        o = c.obj("str", None, tag)
        c.put(o, "elem", e)
        return {o}
    if t.get("k") == "tuple" and not t.get("a"):
        return {c.eng.UNIT}
    o = c.obj("vec", None, tag)
    o.ty = ty
    c.put(o, "elem", e)
    return {o}


@model(*It("collect"), "rayon::iter::ParallelIterator::collect", "std::iter::FromIterator::from_iter", "itertools::Itertools::collect_vec")
def i_collect(c):
    e = self_elems(c, "co")
    ty = c.dty
    if ty is None:
        a = c.callee.get("a", ())
        ty = a[-1] if a else None
    return container(c, e, ty, "col")


@model("itertools::Itertools::join", "std::slice::<impl [T]>::join", "std::slice::<impl [T]>::concat")
def i_join(c):
    if "Itertools" in c.n:
        e = self_elems(c, "jn")
    else:
        e = c.elems(c.args[0], "jn")
    return {c.node(c.n, [e] + [set(a) for a in c.args[1:]])}


@model("std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice", "std::vec::Vec::<T, A>::append")
def extend(c):
    e = c.elems(c.args[1], "ex")
    return vput(c, e)


# ------------------------------------------------------------------ vectors
@model(*Ve("new", "with_capacity"))
def vec_new(c):
    return {c.obj("vec", None, "new")}


@model("std::vec::from_elem")
def vec_from_elem(c):
    o = c.obj("vec", None, "fe")
    c.put(o, "elem", set(c.args[0]))
    return {o}


@model("std::boxed::Box::<T>::new_uninit")
def box_uninit(c):
    return {c.obj("box", None, "bu")}


@model("std::boxed::box_assume_init_into_vec_unsafe")
def box_vec(c):
    o = c.obj("vec", None, "bv")
    for x in c.a(0):
        if x.k == "O":
            for cell in list(x.cells.values()):
                for y in list(c.read(cell)):
                    c.put(o, "elem", c.eng.elems(c, y, "bv"))
        else:
            c.put(o, "elem", c.eng.elems(c, x, "bv"))
    return {o}


def vput(c, vals):
    from engine import Cell
    for x in c.a(0):
        if x.k == "O" and x.b == "vec":
            c.put(x, "elem", vals)
        elif x.k == "O" and x.b == "str":
            c.put(x, "elem", vals)
        elif x.k == "O" and x.b == "map":
            for y in vals:
                c.put(x, "key", tuple_get(c, y, 0))
                c.put(x, "val", tuple_get(c, y, 1))
        elif x.k in ("P", "S", "N"):
            p = c.eng.proj(x, "elem")
            if p.cell is None:
                p.cell = Cell()
            c.eng.join(p.cell, vals)
    return {c.eng.UNIT}


@model(*Ve("push", "push_back"), "std::collections::VecDeque::<T, A>::push_back")
def vec_push(c):
    return vput(c, set(c.args[1]))


@model(*Ve("insert"))
def vec_insert(c):
    return vput(c, set(c.args[2]))


@model(*Ve("is_empty"), *Sl("is_empty"))
def vec_is_empty(c):
    """An abstract container with no possible element is empty; otherwise unknown."""
    known = True
    out = set()
    for x in c.a(0):
        if x.k == "O" and x.b in ("vec", "array", "seq", "str"):
            e = c.eng.elems(c, x, "ie") if x.b != "str" else set(c.get(x, "elem"))
            if not e:
                if c.eng.is_settled(c.u):
                    out.add(c.eng.TRUE)
            elif x.b in ("array", "seq"):
                out.add(c.eng.FALSE)
            else:
                known = False
        elif x.k == "Y" and x.a == "arr":
            out.add(c.eng.FALSE if x.c else c.eng.TRUE)
        else:
            known = False
    if not known:
        return {c.node()}
    return out


@model(*Ve("len"), *Sl("len"))
def vec_len(c):
    out = set()
    for x in c.a(0):
        if x.k == "O" and x.b == "vec" and not c.get(x, "elem"):
            if c.eng.is_settled(c.u):
                out.add(c.eng.const("int", 0))
        elif x.k == "Y" and x.a == "arr":
            out.add(c.eng.const("int", len(x.c)))
        elif x.k == "O" and x.b in ("array", "seq"):
            out.add(c.eng.const("int", len(x.cells)))
        else:
            out.add(c.node("len", [{x}], tag="l%d" % x.id))
    return out


@model(*Sl("first", "last", "first_mut", "last_mut", "get", "get_mut", "split_first", "split_last", "iter_max"), *Ve("first", "pop", "get"), "std::vec::Vec::<T, A>::pop_if")
def vec_get(c):
    nm = c.n.rsplit("::", 1)[-1]
    out = {c.none()}
    pay = set()
    none = False
    for x in c.a(0):
        if x.k == "Y" and x.a == "arr":
            idx = 0 if nm == "first" else len(x.c) - 1 if nm == "last" else None
            if nm == "get":
                ks = [y.b for y in c.a(1) if y.k == "K"]
                idx = ks[0] if len(ks) == 1 and len(c.a(1)) == 1 else None
            if idx is not None:
                if 0 <= idx < len(x.c):
                    pay.add(x.c[idx])
                else:
                    none = True
                continue
            pay |= set(x.c)
            none = True
        elif x.k in ("P", "S", "N", "Y") and nm in ("first", "last", "get"):
            key = "elem"
            if nm == "first":
                key = "[0]"
            elif nm == "get":
                ks = [y for y in c.a(1)]
                if len(ks) == 1 and ks[0].k == "K":
                    key = "[%s]" % ks[0].b
            pay |= c.eng.proj_opaque(x, key, c.u)
            none = True
        else:
            pay |= c.eng.elems(c, x, "vg")
            none = True
    return c.some(pay) | ({c.none()} if none else set())


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def index(c):
    t = c.eng.T[c.callee["a"][0]].get("n", "") if c.callee.get("a") else ""
    it_ = c.eng.T[c.callee["a"][1]] if len(c.callee.get("a", ())) > 1 else {}
    if "Range" in it_.get("n", ""):
        # slicing: a part of the same value
        if t == "std::string::String" or c.eng.T[c.callee["a"][0]]["k"] == "str":
            return {c.node()}
        return c.a(0)
    out = set()
    for x in c.a(0):
        if t in MAPS or (x.k == "O" and x.b == "map"):
            if x.k == "O":
                out |= c.get(x, "val")
            else:
                out.add(c.node("map_index", c.args, tag="mi"))
        elif x.k == "Y":
            ks = [y for y in c.a(1)]
            if x.a == "arr" and len(ks) == 1 and ks[0].k == "K" and isinstance(ks[0].b, int) and ks[0].b < len(x.c):
                out.add(x.c[ks[0].b])
            elif x.a == "arr":
                out |= set(x.c)
            else:
                out |= c.eng.proj_opaque(x, "elem", c.u)
        elif x.k == "O" and x.b in ("vec", "array", "seq"):
            if c.n.endswith("index_mut") and x.b == "vec":
                out.add(c.eng.ref(c.eng.ocell(x, "elem")))
            else:
                out |= c.eng.elems(c, x, "ix")
        elif x.k in ("K", "U"):
            pass
        else:
            ks = list(c.a(1))
            key = "elem"
            if len(ks) == 1 and ks[0].k == "K":
                key = "[%s]" % ks[0].b
            out |= c.eng.proj_opaque(x, key, c.u)
    return out


@model(*Ve("remove", "swap_remove"))
def vec_remove(c):
    return c.elems(c.args[0], "rm")


@model(*Ve("retain", "retain_mut"))
def vec_retain(c):
    e = c.elems(c.args[0], "rt")
    if e:
        c.call(c.args[1], [e], "rtp")
    return {c.eng.UNIT}


@model(*Ve("drain"))
def vec_drain(c):
    return mkiter(c, "src", {"src": c.a(0)})


@model(*Sl("sort", "sort_unstable", "reverse", "swap"), *Ve("truncate", "clear", "dedup", "reserve", "shrink_to_fit", "swap"))
def vec_unit(c):
    return {c.eng.UNIT}


@model(*Sl("sort_by_key", "sort_by", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"), *Ve("dedup_by_key", "dedup_by"))
def vec_sort_by(c):
    e = c.elems(c.args[0], "sb")
    if e:
        c.call(c.args[1], [e, e], "sbk")
    return {c.eng.UNIT}


@model(*Sl("contains"), "std::vec::Vec::<T, A>::contains")
def vec_contains(c):
    e = c.elems(c.args[0], "vc")
    if not e:
        return {c.eng.FALSE} if c.eng.is_settled(c.u) else set()
    t, f = eqval(c, e, c.args[1])
    if not t:
        return {c.eng.FALSE}
    # a constant table containing exactly the constant
    src = c.a(0)
    k = c.a(1)
    if len(k) == 1 and len(src) == 1:
        x = next(iter(src))
        y = next(iter(k))
        if y.k == "K" and x.k == "O" and x.b in ("seq", "array") and all(z.k == "K" for z in e):
            return c.tbool(y in e, y not in e)
    return {c.node()}


@model("std::iter::Iterator::eq")
def it_eq(c):
    return {c.node()}


# ------------------------------------------------------------------ maps
MAPPRE = ["std::collections::HashMap::<K, V, S, A>::", "std::collections::HashMap::<K, V>::", "std::collections::HashMap::<K, V, S>::", "std::collections::BTreeMap::<K, V, A>::", "std::collections::BTreeMap::<K, V>::",
          "hashlink::LinkedHashMap::<K, V, S>::", "hashlink::LinkedHashMap::<K, V>::"]
SETPRE = ["std::collections::HashSet::<T, S, A>::", "std::collections::HashSet::<T>::", "std::collections::HashSet::<T, S>::", "std::collections::BTreeSet::<T, A>::", "std::collections::BTreeSet::<T>::"]


def Ma(*names):
    return [p + n for p in MAPPRE for n in names]


def Se(*names):
    return [p + n for p in SETPRE for n in names]


@model(*Ma("new", "with_capacity"))
def map_new(c):
    return {c.obj("map", None, "new")}


@model(*Se("new", "with_capacity"))
def set_new(c):
    return {c.obj("vec", None, "set")}


@model(*Se("insert"))
def set_insert(c):
    vput(c, set(c.args[1]))
    return {c.node()}


@model(*Se("iter", "drain"))
def set_iter(c):
    return mkiter(c, "src", {"src": c.args[0]})


@model(*Se("is_empty"))
def set_is_empty(c):
    return vec_is_empty(c)


def ykey(c, s):
    """Constant string keys used to look up a YAML hash, or None."""
    out = set()
    for x in c.deref(s):
        if x.k == "O" and x.b == "adt" and x.c[0] == YAML:
            if x.c[1] != 2:
                return None
            for y in c.deref(c.get(x, 0)):
                if y.k == "K" and y.a == "str":
                    out.add(y.b)
                else:
                    return None
        elif x.k == "Y" and x.a == "str" and x.c is not None:
            out.add(x.c)
        else:
            return None
    return out


def ylookup(c, x, keys):
    """-> (values, may be absent)"""
    pay = set()
    none = False
    if keys is None:
        for (k, v) in x.c:
            pay.add(v)
        return pay, True
    for q in keys:
        hit = False
        for (k, v) in x.c:
            if k.a == "str" and k.c == q:
                pay.add(v)
                hit = True
            elif k.a == "str" and k.c is None or k.a == "any":
                pay.add(v)
                none = True
        if not hit:
            none = True
    return pay, none


@model(*Ma("get", "get_mut", "remove", "get_key_value"))
def map_get(c):
    out = set()
    pay = set()
    none = False
    for x in c.a(0):
        if x.k == "Y" and x.a == "hash":
            p, nn = ylookup(c, x, ykey(c, c.args[1]))
            pay |= p
            none |= nn
        elif x.k == "O" and x.b == "map":
            pay |= c.get(x, "val")
            none = True
        elif x.k == "O":
            none = True
        else:
            k = ykey(c, c.args[1])
            if k is not None and len(k) == 1:
                p = c.eng.proj_opaque(x, "{%s}" % next(iter(k)), c.u)
            else:
                p = {c.node("map_get", [{x}, set(c.args[1])], tag="mg%d" % x.id)}
            pay |= p
            none = True
    return c.some(pay) | ({c.none()} if none else set())


@model(*Ma("contains_key"))
def map_contains(c):
    t = f = False
    opq = False
    for x in c.a(0):
        if x.k == "Y" and x.a == "hash":
            p, nn = ylookup(c, x, ykey(c, c.args[1]))
            t |= bool(p)
            f |= nn
        elif x.k == "O" and x.b == "map" and not c.get(x, "key"):
            f |= c.eng.is_settled(c.u)
        else:
            opq = True
    if opq:
        return {c.node()}
    return c.tbool(t, f)


@model(*Ma("insert"))
def map_insert(c):
    for x in c.a(0):
        if x.k == "O" and x.b == "map":
            c.put(x, "key", set(c.args[1]))
            c.put(x, "val", set(c.args[2]))
    return {c.node()}


@model(*Ma("is_empty"))
def map_is_empty(c):
    out = set()
    for x in c.a(0):
        if x.k == "Y" and x.a == "hash":
            out.add(c.eng.FALSE if x.c else c.eng.TRUE)
        elif x.k == "O" and x.b == "map" and not c.get(x, "key"):
            if c.eng.is_settled(c.u):
                out.add(c.eng.TRUE)
        else:
            out.add(c.node(tag="me%d" % x.id, args=[{x}]))
    return out


@model(*Ma("len"))
def map_len(c):
    out = set()
    for x in c.a(0):
        if x.k == "Y" and x.a == "hash":
            out.add(c.eng.const("int", len(x.c)))
        else:
            out.add(c.node("len", [{x}], tag="ml%d" % x.id))
    return out


@model(*Ma("iter", "iter_mut", "drain"))
def map_iter(c):
    return mkiter(c, "src", {"src": c.args[0]})


@model(*Ma("keys", "into_keys"))
def map_keys(c):
    return mkiter(c, "keys", {"src": c.args[0]})


@model(*Ma("values", "values_mut", "into_values"))
def map_values(c):
    return mkiter(c, "values", {"src": c.args[0]})


@model(*Ma("entry"))
def map_entry(c):
    """Entry of a map: an opaque symbol remembering map and key; see Occupied/Vacant below."""
    nd = c.node()
    nd.c = None
    nd.cells = {"map": c.a(0), "key": set(c.args[1])}
    ys = [x for x in c.a(0) if x.k == "Y" and x.a == "hash"]
    adt = c.n.split("::LinkedHashMap", 1)[0] + "::linked_hash_map::Entry"
    if not ys or len(ys) < len(c.a(0)) or adt not in c.eng.adts:
        return {nd}
    out = set()
    pres = absent = False
    for x in ys:
        p, nn = ylookup(c, x, ykey(c, c.args[1]))
        pres |= bool(p)
        absent |= nn
    for on, v in ((pres, "Occupied"), (absent, "Vacant")):
        if on:
            o = c.obj("adt", (adt, c.eng.variant_index(adt, v)), "en" + v)
            c.put(o, 0, {nd})
            out.add(o)
    return out


@model(*["hashlink::linked_hash_map::OccupiedEntry::<'a, K, V, S>::" + n for n in ("get", "get_mut", "into_mut", "remove")])
def entry_get(c):
    out = set()
    for x in c.a(0):
        r = entry_root(x)
        if r.k == "N" and isinstance(r.cells, dict) and "map" in r.cells:
            for m in r.cells["map"]:
                if m.k == "Y" and m.a == "hash":
                    out |= ylookup(c, m, ykey(c, r.cells["key"]))[0]
                else:
                    out.add(c.node(tag="eg%d" % m.id))
        else:
            out.add(c.node(tag="eg%d" % x.id))
    return out


def entry_root(x):
    while x.k == "P":
        x = x.a
    return x


@model("std::collections::btree_map::VacantEntry::<'a, K, V, A>::insert", "std::collections::hash_map::VacantEntry::<'a, K, V, A>::insert", "hashlink::linked_hash_map::VacantEntry::<'a, K, V, S>::insert",
       "hashlink::linked_hash_map::OccupiedEntry::<'a, K, V, S>::insert", "std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::insert",
       "std::collections::btree_map::Entry::<'a, K, V, A>::or_insert", "std::collections::hash_map::Entry::<'a, K, V, A>::or_insert", "hashlink::linked_hash_map::Entry::<'a, K, V, S>::or_insert")
def entry_insert(c):
    for x in c.a(0):
        r = entry_root(x)
        if r.k == "N" and isinstance(r.cells, dict) and "map" in r.cells:
            for m in r.cells["map"]:
                if m.k == "O" and m.b == "map":
                    c.put(m, "key", r.cells["key"])
                    c.put(m, "val", set(c.args[1]))
    return set(c.args[1]) | {c.node()}


@model("std::collections::btree_map::Entry::<'a, K, V, A>::or_default", "std::collections::hash_map::Entry::<'a, K, V, A>::or_default")
def entry_default(c):
    out = set()
    v = c.obj("vec", None, "ed")
    for x in c.a(0):
        r = entry_root(x)
        if r.k == "N" and isinstance(r.cells, dict) and "map" in r.cells:
            for m in r.cells["map"]:
                if m.k == "O" and m.b == "map":
                    c.put(m, "key", r.cells["key"])
                    c.put(m, "val", {v})
                    out |= c.get(m, "val")
    return out or {v}


# ------------------------------------------------------------------ yaml
def yas(kind, variant, payload):
    def m(c):
        out = set()
        pay = set()
        none = False
        for x in c.a(0):
            if x.k == "Y":
                if x.a == kind:
                    pay |= payload(c, x)
                    continue
                if x.a in ("any", "opt") or x.a.startswith("not_") and x.a != "not_" + kind:
                    pay.add(c.eng.proj(x, variant))
                none = True
            elif x.k == "O" and x.b == "adt" and x.c[0] == YAML:
                if YVAR[x.c[1]] == variant:
                    pay |= c.get(x, 0)
                else:
                    none = True
            elif x.k == "O":
                none = True
            elif x.k in ("K", "U"):
                none = True
            else:
                vs = c.eng.disc_of(x, YAML)
                if vs is None or variant in vs:
                    pay |= c.eng.proj_opaque(x, variant, c.u)
                if vs is None or vs - {variant}:
                    none = True
        return c.some(pay) | ({c.none()} if none else set())
    return m


MODELS["yaml_rust2::Yaml::as_hash"] = MODELS["yaml_rust2::Yaml::into_hash"] = MODELS["yaml_rust2::Yaml::as_mut_hash"] = yas("hash", "Hash", lambda c, x: {x})
MODELS["yaml_rust2::Yaml::as_vec"] = MODELS["yaml_rust2::Yaml::into_vec"] = MODELS["yaml_rust2::Yaml::as_mut_vec"] = yas("arr", "Array", lambda c, x: {x})
MODELS["yaml_rust2::Yaml::as_str"] = MODELS["yaml_rust2::Yaml::into_string"] = yas("str", "String", lambda c, x: {c.eng.const("str", x.c)} if x.c is not None else {c.eng.proj(x, "String")})
MODELS["yaml_rust2::Yaml::as_i64"] = MODELS["yaml_rust2::Yaml::into_i64"] = yas("int", "Integer", lambda c, x: c.eng.ydown(x, "Integer", c.u))
MODELS["yaml_rust2::Yaml::as_bool"] = MODELS["yaml_rust2::Yaml::into_bool"] = yas("bool", "Boolean", lambda c, x: c.eng.ydown(x, "Boolean", c.u))


# ------------------------------------------------------------------ misc
@model("std::path::Path::to_str", "std::ffi::OsStr::to_str")
def to_str(c):
    return c.some(c.a(0)) | {c.none()}


@model("std::ffi::OsString::into_string")
def into_string(c):
    return c.ok(c.a(0)) | c.err(c.a(0))


@model("std::iter::ExactSizeIterator::len")
def es_len(c):
    return {c.node()}


@model("phf::Map::<K, V>::keys", "phf::Map::<K, V>::entries", "phf::Map::<K, V>::values", "phf::Map::<K, V>::get", "phf::Map::<K, V>::contains_key")
def phf_map(c):
    nm = c.n.rsplit("::", 1)[-1]
    ents = []
    for x in c.a(0):
        ents += phf_entries(c, x)
    if nm == "keys":
        tk = getattr(c.eng, "table_keys", None)
        return mkiter(c, "lit", {"v": {k for k, _ in ents if tk is None or k.b in tk}})
    if nm == "values":
        return mkiter(c, "lit", {"v": {v for _, v in ents}})
    if nm == "entries":
        return mkiter(c, "lit", {"v": phf_tuples(c, c.a(0))})
    ks = c.a(1)
    pay = {v for k, v in ents if any(x is k or x.k != "K" for x in ks)}
    none = any(x.k != "K" or not any(x is k for k, _ in ents) for x in ks)
    if nm == "get":
        return c.some(pay) | ({c.none()} if none else set())
    return c.tbool(bool(pay), none)


def phf_tuples(c, maps):
    ts = set()
    tk = getattr(c.eng, "table_keys", None)
    for x in maps:
        for k, v in phf_entries(c, x):
            if tk is not None and k.b not in tk:
                continue  # the document does not have this key
            o = c.eng.obj(("phfe", k.id, v.id), "tuple", None)
            c.put(o, 0, {k})
            c.put(o, 1, {v})
            ts.add(o)
    return ts


def phf_entries(c, x):
    """(key atom, value atom) pairs of a constant phf map value."""
    out = []
    seen = set()

    def walk(v):
        if v in seen:
            return
        seen.add(v)
        if v.k == "O" and v.cells:
            if v.b == "tuple" and 0 in v.cells and 1 in v.cells:
                ks = list(v.cells[0].v)
                vs = list(v.cells[1].v)
                if len(ks) == 1 and ks[0].k == "K" and ks[0].a == "str" and len(vs) == 1:
                    out.append((ks[0], vs[0]))
                    return
            for cell in v.cells.values():
                for y in list(cell.v):
                    walk(y)

    walk(x)
    return out


# ------------------------------------------------------------------ svd-rs builders and containers
def svd_star(c):
    return None


def builder_model(c):
    """`T::builder()`, `TBuilder::field(self, v)`, `TBuilder::build(self, level)` (by naming convention of svd-rs)."""
    nm = c.n.rsplit("::", 1)[-1]
    own = c.n.rsplit("::", 1)[0]
    if nm == "builder" or (nm == "new" and own.endswith("RegisterProperties")):
        o = c.obj("builder", own, "b")
        return {o}
    if own.endswith("Builder") or own.endswith("RegisterProperties"):
        if nm == "build":
            return c.ok(c.a(0)) | c.err({c.node("build-error", tag="be")})
        if len(c.args) == 2:
            t = c.eng.facts
            for x in c.a(0):
                if x.k == "O" and x.b == "builder":
                    c.put(x, nm, set(c.args[1]))
                    c.put(x, "@" + nm, set(c.args[1]))
                else:
                    p = c.eng.proj_opaque(x, nm)
                    from engine import Cell
                    for q in p:
                        if q.k == "P" and q.a is x:
                            if q.cell is None:
                                q.cell = Cell()
                            c.eng.join(q.cell, set(c.args[1]))
            return c.a(0)
    return None


MODELS["*builder"] = builder_model


class _Star(dict):
    pass


def install_builders():
    names = ("name display_name version description derived_from group_name interrupt base_address default_register_properties address_block registers size access "
             "reset_value reset_mask protection alternate_group alternate_register properties write_constraint fields address_offset children value values usage is_default "
             "modified_write_values read_action bit_range bit_offset bit_width lsb msb dim dim_increment dim_index dim_name dim_array_index offset fpu_double_precision dsp_present "
             "icache_present dcache_present itcm_present dtcm_present vtor_present device_num_interrupts sau_num_regions revision endian mpu_present fpu_present nvic_priority_bits "
             "has_vendor_systick enumerated_values header_struct_name alternate_peripheral prepend_to_name append_to_name disable_condition alternate_cluster build new").split()
    for n in names:
        MODELS["*" + n] = builder_model


install_builders()


@model("svd_rs::RegisterInfo::single", "svd_rs::FieldInfo::single", "svd_rs::ClusterInfo::single", "svd_rs::PeripheralInfo::single")
def single(c):
    o = c.obj("adt", ("svd_rs::MaybeArray", 0), "sg")
    c.put(o, 0, set(c.args[0]))
    return {o}


@model("svd_rs::RegisterInfo::array", "svd_rs::FieldInfo::array", "svd_rs::ClusterInfo::array", "svd_rs::PeripheralInfo::array")
def array(c):
    o = c.obj("adt", ("svd_rs::MaybeArray", 1), "ar")
    c.put(o, 0, set(c.args[0]))
    c.put(o, 1, set(c.args[1]))
    return {o}


def svd_iter(part):
    def m(c):
        out = set()
        for x in c.a(0):
            if x.k == "O":
                nd = c.node(args=[{x}], tag="si%d" % x.id)
                out |= {c.eng.proj(nd, "elem")}
            else:
                out |= c.eng.proj_opaque(x, part + "()", c.u)
        return mkiter(c, "lit", {"v": out})
    return m


for _t in ("PeripheralInfo", "ClusterInfo"):
    for _n in ("registers", "clusters", "all_registers"):
        MODELS["svd_rs::%s::%s" % (_t, _n)] = svd_iter(_n)
        MODELS["svd_rs::%s::%s_mut" % (_t, _n)] = svd_iter(_n)
MODELS["svd_rs::RegisterInfo::fields"] = MODELS["svd_rs::RegisterInfo::fields_mut"] = svd_iter("fields")


@model("svd_rs::Name::name")
def svd_name(c):
    out = set()
    for x in c.a(0):
        if x.k == "O":
            out.add(c.node(args=[{x}], tag="nm%d" % x.id))
        else:
            out |= c.eng.proj_opaque(x, "name", c.u)
    return out


for _t, _n in (("Device", "get_peripheral"), ("Device", "get_mut_peripheral"), ("PeripheralInfo", "get_interrupt"), ("PeripheralInfo", "get_register"), ("PeripheralInfo", "get_mut_register"),
               ("ClusterInfo", "get_register"), ("RegisterInfo", "get_field"), ("RegisterInfo", "get_mut_field"), ("PeripheralInfo", "get_cluster"), ("ClusterInfo", "get_cluster"), ("ClusterInfo", "get_mut_register")):
    MODELS["svd_rs::%s::%s" % (_t, _n)] = lambda c: c.some({c.node(tag="v")}) | {c.none()}


def modify_from(c):
    return c.ok({c.eng.UNIT}) | c.err({c.node("modify-error", tag="me")})


for _t in ("AddressBlock", "ClusterInfo", "Cpu", "DimElement", "FieldInfo", "Interrupt", "PeripheralInfo", "RegisterInfo", "EnumeratedValue", "EnumeratedValues"):
    MODELS["svd_rs::%s::modify_from" % _t] = modify_from


def option_ret(c):
    return c.some({c.node(tag="v")}) | {c.none()}


for _n in ("svd_rs::Access::parse_str", "svd_rs::AddressBlockUsage::parse_str", "svd_rs::Usage::parse_str", "svd_rs::Endian::parse_str", "svd_rs::ReadAction::parse_str",
           "svd_rs::ModifiedWriteValues::parse_str", "svd_rs::DimElement::parse_indexes", "regex::Regex::captures", "regex::Captures::<'h>::get", "std::path::Path::extension", "std::path::Path::file_name",
           "std::path::Path::file_stem", "std::path::Path::parent", "liquid::Object::get"):
    MODELS[_n] = option_ret


@model("std::iter::Iterator::cmp")
def it_cmp(c):
    return {c.node()}


@model("std::prelude::v1::Some", "std::option::Option::Some", "core::option::Option::Some")
def ctor_some(c):
    return c.some(c.args[0])


@model("std::prelude::v1::Ok", "std::result::Result::Ok")
def ctor_ok(c):
    return c.ok(c.args[0])


@model("std::prelude::v1::Err", "std::result::Result::Err")
def ctor_err(c):
    return c.err(c.args[0])


def ctor(c):
    """Tuple-variant / tuple-struct constructors used as functions."""
    own, nm = c.n.rsplit("::", 1)
    e = c.eng
    for cand in (own, c.n):
        a = e.adts.get(cand)
        if a is None:
            continue
        for i, v in enumerate(a["v"]):
            if v["n"] == nm and len(v["f"]) == len(c.args):
                o = c.obj("adt", (cand, i), "ctor")
                for j, s in enumerate(c.args):
                    c.put(o, j, set(s))
                return {o}
    return None
