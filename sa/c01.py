"""Only the designated output is written, and only once everything else has succeeded."""
from commands import *

READ_ONLY = ("std::fs::File::open", "std::fs::metadata", "std::fs::File::metadata", "std::fs::Metadata::", "std::fs::read", "std::fs::read_to_string", "std::fs::canonicalize", "std::fs::exists",
             "std::fs::symlink_metadata", "std::fs::read_dir", "std::fs::read_link", "std::fs::FileType::", "std::fs::DirEntry::", "std::fs::File::try_clone")
OUT = ("std::fs::", "std::process::Command::", "std::os::unix::fs::symlink", "std::env::set_", "std::env::remove_var", "tempfile::")
# command -> option naming the output (None: no file is written)
COMMANDS = {"Patch": "out_path", "ExpandPatch": "out_path", "Makedeps": "deps_file", "Convert": "out_path", "Html": "htmldir", "Htmlcompare": "htmldir", "Interrupts": None, "Mmap": None, "Info": None}
OPTIONAL = ("Patch", "ExpandPatch")  # commands whose output option may be left out
IO = ("std::io::", "std::fs::", "std::ops::", "anyhow::Ok", "anyhow::Context", "std::fmt::")
# `into_string` of a path that was converted to text before
FINE = ("std::ffi::OsString::into_string",)
WRITES = ("std::io::Write::write_all", "std::io::copy", "std::fs::write", "std::io::Write::write_fmt")


def effect(n):
    if n == "std::fs::read_to_string" or n == "std::fs::read":
        return False
    return any(n.startswith(p) for p in OUT) and not any(n.startswith(p) for p in READ_ONLY if p not in ("std::fs::read",))


def path_of(n, args):
    return args[1] if n.rsplit("::", 1)[-1] in ("copy", "rename", "hard_link", "symlink", "open") and len(args) > 1 and "File" not in n else args[0]


def named_by(eng, atoms, opt, depth=0):
    """Is the path the option's value, or a file below it? -> offending atom or None"""
    for x in atoms:
        if x.k == "R":
            r = named_by(eng, x.cell.v, opt, depth)
            if r is not None:
                return r
        elif x.k == "N" and depth < 6 and x.eng.ninfo[x][0].rsplit("::", 1)[-1] in ("join", "as_path", "to_path_buf", "to_owned", "clone", "deref", "as_ref", "borrow"):
            r = named_by(eng, x.eng.ninfo[x][1][0], opt, depth + 1)
            if r is not None:
                return r
        elif x.k in ("S", "P") and syms({x}) == {opt}:
            pass
        else:
            return x
    return None


def patched_name(c, f, bb, args):
    """Without an output option the result goes beside the SVD file, under another extension."""
    ext = c.calls("PathBuf::set_extension", "Path::with_extension")
    r = c.cfg[0].reach([(c.fr, c.fr.body.entry, 0)], avoid={(g, b, 0) for g, b, _, _ in ext})
    if (f, bb, 0) in r:
        return "the SVD file itself can be opened for writing"
    if not all(any(isinstance(k, str) and "patched" in k for k in consts(a[1])) for _, _, _, a in ext):
        return "the name of the output does not end in `.patched`"
    if syms(args[0]) != {"yaml_file"}:
        return "the output is named by %s" % sorted(syms(args[0]))
    return None


def check(rep):
    seen = set()
    for cmd, opt in COMMANDS.items():
        for out in ((True, False) if cmd in OPTIONAL else (True,)):
            fields = {}
            if cmd in OPTIONAL:
                fields[opt] = ("some", "$" + opt) if out else None
            c = Cmd(cmd, fields)
            name = cmd if out else cmd + " (no output given)"
            rep.count("commands")
            rep.count("frames", len(c.eng.frames))
            effs = [(f, bb, cal, args) for f in c.eng.frames for bb, (cal, args, _) in f.calls.items() if effect(cal["n"])]
            for f, bb, cal, args in effs:
                seen.add((f.m, bb))
                key = "%s/%s" % (cmd, cal["n"].rsplit("::", 1)[-1])
                where = "%s: %s (%s): `%s`" % (name, f.n, f.loc(bb), cal["n"])
                rep.count("writes")
                if opt is None:
                    rep.violation(key, "%s changes the file system in a command that only prints" % where)
                elif cmd == "Patch" and not out:
                    q = patched_name(c, f, bb, args)
                    rep.require(q is None, key, "%s: %s" % (where, q))
                elif not out:
                    rep.violation(key, "%s writes a file although none was named" % where)
                else:
                    q = named_by(c.eng, path_of(cal["n"], args), opt)
                    rep.require(q is None, key, "%s acts on %s, not on what `%s` names" % (where, show(q) if q is not None else "", opt))
            if cmd in ("Html", "Htmlcompare") or opt is None:
                if opt is not None:
                    rep.require(effs, cmd + "/writes", "%s: no output is written" % name)
                continue
            # the output is opened only when nothing but writing it can fail any more
            ws = c.calls(*WRITES)
            if cmd == "Patch" or out:
                later = c.after(effs)
                for f, bb, ph in later:
                    if ph or not c.cfg[0].iscall(f, bb) or bb not in f.calls:
                        continue
                    cal, args, dest = f.calls[bb]
                    if c.eng.T[dest[2]].get("n") != RESULT or any(cal["n"].startswith(p) for p in IO) or (f, bb) in c.cfg[0].kids or "std::io::" in cal["n"] or cal["n"] in FINE:
                        continue
                    rep.violation("%s/order/%s" % (cmd, cal["n"]), "%s: `%s` (%s %s) can fail after the output was already opened for writing" % (name, cal["n"], f.n, f.loc(bb)))
                rep.ok(cmd + "/order")
                q = c.bypass(effs)
                rep.require(q is None, cmd + "/written", "%s: a successful run may not write its output (%s)" % (name, q))
                q = c.bypass(ws)
                rep.require(q is None, cmd + "/complete", "%s: a successful run may not write the content (%s)" % (name, q))
            else:
                prints = c.calls("std::io::_print", "std::io::Write::write_all")
                q = c.bypass([p for p in prints if "update_dict" not in p[0].n])
                rep.require(q is None, cmd + "/printed", "%s: a successful run may not print its output (%s)" % (name, q))
    # no effect outside the analysed paths
    for m, i in facts()[1]["insts"].items():
        for bb, b in enumerate(i["blocks"]):
            if b is None or b[1][0] != "call":
                continue
            n = b[1][1].get("n") or ""
            rep.count("call sites")
            if effect(n):
                rep.require((m, bb) in seen, "%s/%s" % (i["n"], n.rsplit("::", 1)[-1]), "%s: `%s` changes the file system outside the steps in which a command writes its output" % (i["n"], n))
    return ("Every command was analysed from the command line dispatcher; every call that changes the file system was found with the origin of the path it acts on, and for the commands with one output "
            "no step other than writing may fail once it is opened.")
