"""Build /verif/seeded/<id>/ from tools/seeds.py, confirming each planted bug in a scratch copy.
usage: python3 tools/seed.py [--check] [id...]     (--check: also run the property's check against it)"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR, SB = "/tmp/sr", "/tmp/sb"
sys.path.insert(0, os.path.join(ROOT, "tools"))
import seeds  # noqa: E402

HELPER = open(os.path.join(ROOT, "tools", "demo_helper.py")).read()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


BASE = "50733ce"


def foreign(diff):
    """Removed lines that are not lines of the original repository."""
    out, f, n = [], None, 0
    blame = {}
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame[f] = sh("git -C %s blame -s HEAD -- %s" % (SR, f)).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            if BASE not in blame[f][n - 1][:10]:
                out.append(l)
            n += 1
        elif l.startswith(" "):
            n += 1
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not os.path.isdir(SR):
        sh("cp -a /repo %s" % SR)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (SR, SR))
    b = sh("cargo test --workspace --no-run --offline -q", cwd=SR)
    base = open("/opt/vp/BASELINE.json").read()
    bad = []
    for s in seeds.SEEDS:
        if args and s["id"] not in args:
            continue
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        sh("git -C %s checkout -q -f ." % SR)
        for f, old, new in s["edits"]:
            p = os.path.join(SR, f)
            t = open(p).read()
            n = s.get("count", {}).get(f, 1)
            if t.count(old) < 1:
                sys.exit("%s: text not found in %s: %s" % (s["id"], f, old[:80]))
            nth = s.get("nth", 0)
            parts = t.split(old)
            if len(parts) > 2 and "nth" not in s:
                sys.exit("%s: text ambiguous (%d) in %s: %s" % (s["id"], len(parts) - 1, f, old[:80]))
            t = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(p, "w").write(t)
        diff = subprocess.run(["git", "-C", SR, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        own = foreign(diff)
        if own:
            print("  %s removes lines of own commits: %s" % (s["id"], own[:3]))
        open(os.path.join(d, "demo.py"), "w").write(HELPER + "\n\n" + s["demo"].strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# Run in the repository after the build; exits 0 iff the behaviour is right.\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        b = sh("cargo test --workspace --no-run --offline 2>&1 | tail -20", cwd=SR)
        t = sh("cargo test --workspace --offline --no-fail-fast -- --test-threads 8 2>&1", cwd=SR)
        ok = t.returncode == 0
        r1 = sh("bash %s/demo.sh" % d, cwd=SR)
        res = "base demo %d, tests %s, patched demo %d" % (r0.returncode, "ok" if ok else "FAIL", r1.returncode)
        good = r0.returncode == 0 and ok and r1.returncode != 0
        if not good:
            bad.append(s["id"])
            print(r0.stdout[-600:] if r0.returncode else "", t.stdout[-1500:] if not ok else "", r1.stdout[-300:])
        det = ""
        if "--check" in sys.argv:
            for p in [s["property"]] + s.get("also", []):
                c = sh("SA_REPO=%s SA_BUILD=%s python3 %s/sa/check.py %s" % (SR, SB, ROOT, p))
                det += " %s:%s" % (p, {0: "MISSED", 1: "caught"}.get(c.returncode, "?"))
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                det += " [%d]" % len(v)
        print("%-34s %-4s %s%s" % (s["id"], s["property"], ("OK   " if good else "BAD  ") + ("" if good else res), det), flush=True)
    sh("git -C %s checkout -q -f ." % SR)
    print("bad:", bad)


main()
