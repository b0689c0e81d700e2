"""Formats and settings given on the command line take effect, and nothing else decides them."""
from commands import *

WORDS = {"Xml": ("svd", "SVD", "xml", "XML"), "Yaml": ("yml", "yaml", "YAML"), "Json": ("json", "JSON")}
UNKNOWN = ("txt", "md", "patched")
DECODE = {"Xml": ("svd_parser::parse", "svd_parser::Config"), "Yaml": ("serde_yaml::de::", "serde_yaml::from_"), "Json": ("serde_json::de::", "serde_json::from_")}
ENCODE = {"Xml": ("svd_encoder::encode",), "Yaml": ("serde_yaml::ser::", "serde_yaml::to_"), "Json": ("serde_json::ser::", "serde_json::to_")}
WRITES = ("std::io::Write::write_all", "std::fs::write", "std::io::copy", "std::io::Write::write_fmt")


def onto(calls, opt):
    return [k for k in calls if any(opt in syms(a) for a in k[3])]


def decoder(rep, c, name, opt, fmt):
    """The content of the file `opt` names is decoded as fmt and as nothing else."""
    for k, pats in DECODE.items():
        l = onto(c.calls(*pats), opt)
        if k == fmt:
            q = c.bypass(l) if l else "never called"
            rep.require(q is None, name + "/decode", "%s: `%s` is not read as %s (%s)" % (name, opt, fmt, q))
        else:
            rep.require(not l, name + "/decode", "%s: `%s` is read as %s (%s)" % (name, opt, k, l and "%s %s" % (l[0][0].n, l[0][0].loc(l[0][1]))))


def encoder(rep, c, name, fmt, source):
    ws = c.calls(*WRITES)
    rep.require(ws, name + "/encode", "%s: nothing is written" % name)
    for f, bb, cal, args in ws:
        data = args[1] if cal["n"].rsplit("::", 1)[-1] != "copy" else args[0]
        for k, pats in ENCODE.items():
            got = through(data, *pats)
            if k == fmt:
                rep.require(got and source in syms(data), name + "/encode", "%s: what is written (%s %s) is not the device encoded as %s" % (name, f.n, f.loc(bb), fmt))
            else:
                rep.require(not got, name + "/encode", "%s: what is written (%s %s) is encoded as %s" % (name, f.n, f.loc(bb), k))


def convert(rep):
    run = lambda f, ext=None: Cmd("Convert", {"format_config": None, "expand": False, "expand_properties": False, "ignore_enums": False, **f}, ext)
    opt = lambda kind, v: ("some", ("variant", "convert_cli::" + kind, v))
    n = 0
    for fmt, words in WORDS.items():
        for w in words:
            c = run({"input_format": None, "output_format": opt("OutputFormat", "Json")}, {"in_path": w, "out_path": "txt"})
            decoder(rep, c, "convert from .%s" % w, "in_path", fmt)
            c = run({"input_format": opt("InputFormat", "Json"), "output_format": None}, {"in_path": "txt", "out_path": w})
            encoder(rep, c, "convert to .%s" % w, fmt, "in_path")
            n += 2
        for other in ("svd", "json", "yaml", "txt", None):
            c = run({"input_format": opt("InputFormat", fmt), "output_format": opt("OutputFormat", "Yaml")}, {"in_path": other, "out_path": "json"})
            decoder(rep, c, "convert --input-format %s from .%s" % (fmt, other), "in_path", fmt)
            encoder(rep, c, "convert --output-format Yaml", "Yaml", "in_path")
            c = run({"input_format": opt("InputFormat", "Xml"), "output_format": opt("OutputFormat", fmt)}, {"in_path": "json", "out_path": other})
            encoder(rep, c, "convert --output-format %s to .%s" % (fmt, other), fmt, "in_path")
            n += 2
    for w in UNKNOWN + (None,):
        c = run({"input_format": None, "output_format": opt("OutputFormat", "Json")}, {"in_path": w, "out_path": "json"})
        rep.require(not c.can_succeed(), "convert from unknown", "convert: a run can succeed although the format of the input .%s is not known" % w)
        c = run({"input_format": opt("InputFormat", "Json"), "output_format": None}, {"in_path": "json", "out_path": w})
        rep.require(not c.can_succeed(), "convert to unknown", "convert: a run can succeed although the format of the output .%s is not known" % w)
        n += 2
    # settings of the reader
    for fmt in WORDS:
        for flag, pat in (("expand", "svd_parser::expand::expand"), ("expand_properties", "svd_parser::expand::expand_properties")):
            for v in (True, False):
                c = run({"input_format": opt("InputFormat", fmt), "output_format": opt("OutputFormat", "Json"), flag: v})
                l = [k for k in c.calls(pat) if k[2]["n"] == pat]
                name = "convert %s--%s" % ("" if v else "without ", flag)
                if v:
                    q = c.bypass(l) if l else "never called"
                    rep.require(q is None, name, "%s (%s): `%s` is not applied (%s)" % (name, fmt, pat, q))
                    for f, bb, cal, args in c.calls(*WRITES):
                        done = through(args[1], pat)
                        rep.require(done, name, "%s (%s): what is written does not come from `%s`" % (name, fmt, pat))
                else:
                    rep.require(not l, name, "%s (%s): `%s` is applied" % (name, fmt, pat))
                n += 1
    for v in (True, False):
        c = run({"input_format": opt("InputFormat", "Xml"), "output_format": opt("OutputFormat", "Json"), "ignore_enums": v})
        ignored(rep, c, "convert %s--ignore-enums" % ("" if v else "without "), "in_path", v)
        n += 1
    # a format configuration is read by its extension and used for the XML output
    for fmt in ("Yaml", "Json"):
        for w in WORDS[fmt]:
            c = run({"input_format": opt("InputFormat", "Xml"), "output_format": opt("OutputFormat", "Xml"), "format_config": ("some", "$format_config")}, {"format_config": w})
            formatting(rep, c, "convert --format-config .%s" % w, fmt)
            n += 1
    for w in ("svd", "txt", None):
        c = run({"input_format": opt("InputFormat", "Xml"), "output_format": opt("OutputFormat", "Xml"), "format_config": ("some", "$format_config")}, {"format_config": w})
        rep.require(not c.can_succeed(), "convert --format-config unknown", "convert: a run can succeed although the format configuration .%s is not of a known format" % w)
        n += 1
    c = run({"input_format": opt("InputFormat", "Xml"), "output_format": opt("OutputFormat", "Xml")})
    for f, bb, cal, args in c.calls("svd_encoder::encode"):
        rep.require(not through(args[1], "EncoderConfig::update", "svd_encoder::Config::") , "convert without --format-config", "convert: the default formatting is changed without a format configuration")
    return n + 1


def ignored(rep, c, name, opt, v):
    l = onto(c.calls("svd_parser::parse"), opt)
    rep.require(l, name, "%s: the SVD parser is not called" % name)
    for f, bb, cal, args in l:
        w = [a for x in leaves(args[1] if len(args) > 1 else ()) if x.k == "N" and c.eng.ninfo[x][0].endswith("Config::ignore_enums") for a in [c.eng.ninfo[x][1][1]]]
        got = {x.b if x.k == "K" else None for a in w for x in a} or {False}
        rep.require(got == {v}, name, "%s: the parser is told ignore_enums = %s" % (name, sorted(map(str, got))))


def formatting(rep, c, name, fmt):
    decoder(rep, c, name, "format_config", fmt)
    for f, bb, cal, args in c.calls("svd_encoder::encode", "patch::process_reader"):
        cfgs = [a for a in args if through(a, "Config::update")]
        rep.require(cfgs and any("format_config" in syms(a) for a in args), name, "%s: the output is encoded without the given configuration (%s %s)" % (name, f.n, f.loc(bb)))
    ups = [k for k in c.calls("Config::update") if any("format_config" in syms(a) for a in k[3])]
    rep.require(ups, name, "%s: the configuration's entries are not applied" % name)


CONFIG = "svdtools::patch::Config"


def patch(rep):
    n = 0

    def hook(c):
        if c.n.endswith("DeviceExt::process") or c.n.endswith("DeviceExt>::process"):
            o = c.node(tag="processed")
            return c.ok({c.eng.UNIT}) | c.err({o})
        return None

    def run(f, ext=None):
        return Cmd("Patch", {"post_validate": False, "show_patch_on_error": False, "enum_derive": None, "format_config": None, **f}, ext, hook, whole=True)

    def proc(c):
        return [k for k in c.calls("DeviceExt::process", "DeviceExt>::process")]

    LEVEL = {True: "Strict", False: "Disabled"}
    for v in (True, False):
        c = run({"post_validate": v})
        name = "patch %s--post-validate" % ("" if v else "without ")
        l = c.calls("::validate_all", "::validate")
        q = c.bypass(l) if v and l else None if l or not v else "never called"
        rep.require(q is None, name, "%s: a run can succeed without validating the result (%s)" % (name, q))
        for f, bb, cal, args in l:
            got = {variant(c.eng, x) for x in args[1]}
            if got == {"Disabled", "Strict"} and v:
                q = assigned(c, "post_validate", CONFIG, (f, bb, 0))
                rep.require(q is None, name, "%s: the result can be validated at level Disabled (%s)" % (name, q))
            else:
                rep.require(got == {LEVEL[v]}, name, "%s: the result is validated at level %s" % (name, sorted(map(str, got))))
        # the device is processed before it is validated, and validated before it is encoded
        order(rep, c, name, proc(c), c.calls("svd_encoder::encode"), "patched")
        if v:
            order(rep, c, name, l, c.calls("svd_encoder::encode"), "validated")
            r = c.after(l)
            rep.require(not any((f, bb, 0) in r for f, bb, _, _ in proc(c)), name, "%s: the device is patched after its validation" % name)
        n += 1
    for d in ("Enum", "Field", "None", ""):
        c = run({"enum_derive": ("some", ("variant", "patch::EnumAutoDerive", d)) if d else None})
        name = "patch --enum-derive %s" % d if d else "patch without --enum-derive"
        settings(rep, c, proc(c), name, "enum_derive", d or "Enum")
        n += 1
    for v in (True, False):
        c = run({"show_patch_on_error": v})
        name = "patch %s--show-patch-on-error" % ("" if v else "without ")
        settings(rep, c, proc(c), name, "show_patch_on_error", v)
        ctx = [k for k in c.calls("fmt::Arguments", "std::fmt::format") if "patch::process_reader" in k[0].n]
        shown = any(through(a, "YamlEmitter") for k in ctx for a in k[3])
        rep.require(shown == v, name + "/message", "%s: the rules are %s in the message of a failure" % (name, "not shown" if v else "shown"))
        settings(rep, c, proc(c), name, "update_fields", True)
        n += 1
    for fmt in ("Yaml", "Json"):
        for w in WORDS[fmt]:
            c = run({"format_config": ("some", "$format_config")}, {"format_config": w})
            formatting(rep, c, "patch --format-config .%s" % w, fmt)
            n += 1
    c = run({"format_config": ("some", "$format_config")}, {"format_config": "txt"})
    rep.require(not c.can_succeed(), "patch --format-config unknown", "patch: a run can succeed although the format configuration is of an unknown format")
    # what is written is the encoded device, the device comes from the SVD file the patch names
    c = run({"out_path": ("some", "$out_path")})
    for f, bb, cal, args in c.calls("std::io::copy", *WRITES):
        data = args[1] if cal["n"].rsplit("::", 1)[-1] != "copy" else args[0]
        rep.require(through(data, "svd_encoder::encode"), "patch/output", "patch: what is written (%s %s) is not the encoded device" % (f.n, f.loc(bb)))
    for f, bb, cal, args in c.calls("svd_encoder::encode"):
        rep.require(through(args[0], "svd_parser::parse"), "patch/device", "patch: what is encoded is not the parsed device")
    for f, bb, cal, args in proc(c):
        rep.require(through(args[0], "svd_parser::parse"), "patch/device", "patch: what is patched is not the parsed device")
        rep.require(through(args[1], "YamlLoader"), "patch/rules", "patch: the rules applied are not those of the patch file")
    svd = [k for k in c.calls("std::fs::File::open", "std::fs::read") if any("_svd" in consts(a) for a in k[3])]
    rep.require(svd, "patch/svd", "patch: the SVD file opened is not the one `_svd` names")
    rep.require(c.bypass(svd) is None, "patch/svd", "patch: a run can succeed without reading the SVD file")
    return n + 2


DEFAULTS = {"post_validate": "Disabled", "enum_derive": "Enum", "show_patch_on_error": False, "update_fields": True}


def settings(rep, c, calls, name, field, want):
    """The configuration handed to the patching code carries the setting."""
    rep.require(calls, name, "%s: the device is not patched" % name)
    for f, bb, cal, args in calls:
        for x in objs(args[2]):
            names = list(c.eng.adts[x.c[0]]["v"][0]["f"])
            got = {variant(c.eng, y) for y in x.cells[names.index(field)].v} if names.index(field) in x.cells else set()
            if want in got and got <= {want, DEFAULTS[field]} and len(got) > 1:
                # the default is overwritten: no path to the patching code may miss the assignment
                q = assigned(c, field, x.c[0], (f, bb, 0))
                rep.require(q is None, name, "%s: the patching code can be reached with %s = %s (%s)" % (name, field, DEFAULTS[field], q))
            else:
                rep.require(got == {want}, name, "%s: the patching code gets %s = %s" % (name, field, sorted(map(str, got))))


def assigned(c, field, adt, target):
    """A path to the target on which the field of the configuration is not assigned -> text or None"""
    cfg, _ = c.cfg
    sets = {(f, bb, 0) for f in c.eng.frames for bb in f.reached for dest, rv, _ in f.body.blocks[bb][0] for p in dest[1] if p[0] == "f" and p[1] == field and p[2] == adt}
    r = cfg.reach([(c.fr, c.fr.body.entry, 0)], avoid=sets)
    return trace(c.eng, r, target) if target in r else None


def objs(atoms):
    for x in atoms:
        if x.k == "R":
            yield from objs(x.cell.v)
        elif x.k == "O":
            yield x


def variant(eng, x):
    if x.k == "K":
        return x.b
    if x.k == "U":
        return eng.adts[x.a]["v"][x.b]["n"]
    if x.k == "O" and x.b == "adt":
        return eng.adts[x.c[0]]["v"][x.c[1]]["n"]
    return show(x)


def order(rep, c, name, first, then, what):
    cfg, errs = c.cfg
    r = cfg.reach([(c.fr, c.fr.body.entry, 0)], avoid={(f, bb, 0) for f, bb, _, _ in first})
    for f, bb, cal, args in then:
        rep.require((f, bb, 0) not in r, name + "/order", "%s: the device can be encoded before it is %s" % (name, what))


def others(rep):
    # printing that only takes place if gaps are asked for
    runs = {v: Cmd("Interrupts", {"no_gaps": v}) for v in (True, False)}
    prints = {v: [k for k in c.calls("std::io::_print", "std::io::Write::write_fmt", "std::io::Write::write_all")] for v, c in runs.items()}
    plain = {(f.m, bb) for f, bb, _, _ in prints[True]}
    extra = [k for k in prints[False] if (k[0].m, k[1]) not in plain]
    rep.require(plain, "interrupts", "interrupts: nothing is printed")
    rep.require(extra and runs[False].bypass(extra) is None, "interrupts without --no-gaps", "interrupts without --no-gaps: a run can succeed without printing the gaps")
    rep.require(plain <= {(f.m, bb) for f, bb, _, _ in prints[False]}, "interrupts --no-gaps", "interrupts --no-gaps: more is printed than without the option")
    opt = lambda v: ("some", ("variant", "convert_cli::InputFormat", v))
    for fmt in WORDS:
        c = Cmd("Info", {"input_format": opt(fmt)}, {"in_path": "txt"})
        decoder(rep, c, "info --input-format %s" % fmt, "in_path", fmt)
        for w in WORDS[fmt]:
            c = Cmd("Info", {"input_format": None}, {"in_path": w})
            decoder(rep, c, "info from .%s" % w, "in_path", fmt)
    c = Cmd("Info", {})
    l = [k for k in c.calls("std::io::_print") if any("in_path" in syms(a) for a in k[3])]
    rep.require(l and c.bypass(l) is None, "info", "info: a run can succeed without printing what was asked for")
    return 12


def check(rep):
    rep.count("scenarios", convert(rep) + patch(rep) + others(rep))
    return ("Every command was analysed from the command line dispatcher once per combination of the setting in question (extension words, explicit formats, flags): which decoder reads the input, which encoder produces "
            "what is written, which library steps lie on every successful path, and with which constants they are called.")
