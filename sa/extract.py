"""Builds the fact driver (if needed) and re-extracts MIR facts from /repo's current source."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))


class ExtractError(Exception):
    pass


def _env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN"):
            if k not in ("CARGO_HOME",):
                env.pop(k)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def _run(cmd, env, cwd, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def sysroot(env):
    rc, out = _run(["rustc", "+nightly", "--print", "sysroot"], env, "/")
    if rc:
        raise ExtractError("no nightly toolchain: " + out)
    return out.strip().splitlines()[-1]


def build_driver():
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    rc, out = _run(["cargo", "+nightly", "build", "--offline", "--quiet"], env, os.path.join(VERIF, "driver"))
    if rc:
        raise ExtractError("driver build failed:\n" + out[-4000:])
    return os.path.join(BUILD, "driver", "debug", "mirfacts")


def src_hash():
    h = hashlib.sha256()
    files = []
    for pat in ("src/**/*", "Cargo.toml", "Cargo.lock", "build.rs"):
        files += glob.glob(os.path.join(REPO, pat), recursive=True)
    files.append(os.path.join(VERIF, "driver", "src", "main.rs"))
    for f in sorted(set(files)):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def extract():
    """Returns (lib_facts, bin_facts). The facts are always those of /repo's current files: a cached
    extraction is reused only when every source file hashes the same."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, "facts")
        hv = src_hash()
        stamp = os.path.join(out, "stamp")
        ok = False
        if os.path.exists(stamp) and open(stamp).read() == hv:
            ok = all(os.path.exists(os.path.join(out, f)) for f in ("svdtools-lib.json", "svdtools-bin.json"))
        if not ok:
            drv = build_driver()
            env = _env()
            sr = sysroot(env)
            tgt = os.path.join(BUILD, "target")
            if os.path.isdir(out):
                shutil.rmtree(out)
            os.makedirs(out)
            # whatever cargo remembers of the crate itself, so that it is compiled again in any case
            for pat in (".fingerprint/svdtools-*", "build/svdtools", "build/svdtools-*", "incremental/svdtools-*"):
                for p in glob.glob(os.path.join(tgt, "debug", pat)):
                    shutil.rmtree(p, ignore_errors=True)
            env.update(
                CARGO_TARGET_DIR=tgt,
                RUSTC_WORKSPACE_WRAPPER=drv,
                LD_LIBRARY_PATH=os.path.join(sr, "lib"),
                MIRFACTS_OUT=out,
                MIRFACTS_CRATES="svdtools",
                CARGO_INCREMENTAL="0",
            )
            rc, log = _run(
                ["cargo", "+nightly", "check", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--lib", "--bins"],
                env, REPO)
            if rc:
                raise ExtractError("cargo check with the fact driver failed:\n" + log[-6000:])
            for f in ("svdtools-lib.json", "svdtools-bin.json"):
                if not os.path.exists(os.path.join(out, f)):
                    raise ExtractError("driver produced no " + f + "\n" + log[-2000:])
            if src_hash() != hv:
                raise ExtractError("source changed during extraction")
            with open(stamp, "w") as fh:
                fh.write(hv)
        r = []
        for f in ("svdtools-lib.json", "svdtools-bin.json"):
            with open(os.path.join(out, f)) as fh:
                r.append(json.load(fh))
        return r[0], r[1], hv


if __name__ == "__main__":
    l, b, h = extract()
    print("facts:", len(l["insts"]), "lib instances,", len(b["insts"]), "bin instances", h[:12], file=sys.stderr)
