import os, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

BIN = os.environ.get("SVDTOOLS_BIN") or os.path.abspath("target/debug/svdtools")


def field(name, off, width=1, extra=""):
    return "<field><name>%s</name>%s<bitOffset>%d</bitOffset><bitWidth>%d</bitWidth></field>" % (name, extra, off, width)


def reg(name, off, fields="", extra=""):
    return "<register><name>%s</name>%s<addressOffset>0x%x</addressOffset><size>32</size>%s</register>" % (name, extra, off, "<fields>%s</fields>" % fields if fields else "")


def cluster(name, off, children, extra="", pre=""):
    return "<cluster>%s<name>%s</name>%s<addressOffset>0x%x</addressOffset>%s</cluster>" % (pre, name, extra, off, children)


def interrupt(name, value):
    return "<interrupt><name>%s</name><value>%d</value></interrupt>" % (name, value)


def per(name, base, children="", extra="", derived=None, ints=""):
    return "<peripheral%s><name>%s</name>%s<baseAddress>0x%x</baseAddress>%s%s</peripheral>" % (
        ' derivedFrom="%s"' % derived if derived else "", name, extra, base, ints, "<registers>%s</registers>" % children if children else "")


def dev(*pers, extra=""):
    return ('<?xml version="1.0" encoding="utf-8"?><device schemaVersion="1.1"><name>D</name><version>1.0</version><description>d</description>%s'
            "<addressUnitBits>8</addressUnitBits><width>32</width><peripherals>%s</peripherals></device>" % (extra, "".join(pers)))


def patch(svd, yaml, files=(), args=()):
    """Run `svdtools patch`; returns (exit status, root of the output or None, stderr)."""
    with tempfile.TemporaryDirectory() as t:
        with open(os.path.join(t, "in.svd"), "w") as f:
            f.write(svd)
        with open(os.path.join(t, "p.yaml"), "w") as f:
            f.write('_svd: "in.svd"\n' + yaml)
        for n, c in dict(files).items():
            with open(os.path.join(t, n), "w") as f:
                f.write(c)
        r = subprocess.run([BIN, "patch", *args, os.path.join(t, "p.yaml"), os.path.join(t, "out.svd")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=t)
        root = None
        if r.returncode == 0:
            root = ET.parse(os.path.join(t, "out.svd")).getroot()
        return r.returncode, root, r.stderr


def tool(args, files=(), keep=()):
    """Run `svdtools` in a scratch directory holding the files; returns (exit status, {file: content or None}, stdout, stderr)."""
    with tempfile.TemporaryDirectory() as t:
        for n, c in dict(files).items():
            os.makedirs(os.path.dirname(os.path.join(t, n)), exist_ok=True)
            with open(os.path.join(t, n), "w") as f:
                f.write(c)
        r = subprocess.run([BIN, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=t)
        out = {}
        for n in keep:
            p = os.path.join(t, n)
            out[n] = open(p).read() if os.path.exists(p) else None
        return r.returncode, out, r.stdout, r.stderr


def names(root, kind):
    return [e.findtext("name") for e in root.iter(kind)]


def get(root, kind, name):
    for e in root.iter(kind):
        if e.findtext("name") == name:
            return e
    return None


def check(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)
