#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (C or C++ source), NEEDS, BREAKS, optional CXX=True, SH (extra shell).
Writes /verif/seeded/ID and tries it (build, stable tests, demo with/without, the property's check) on /repo, restoring it."""
import sys, os, json, subprocess, shutil
V = "/verif"
LIBS = "lib/libvirg-nexus.a -lpng -ljpeg -llapack -lcblas -lblas $(pkg-config --libs cairo) -lm"


def sh(c, **k):
    return subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def restore():
    sh("git -C /repo checkout -- .")


def trial(d, prop):
    meta = {}
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % d, cwd="/repo"); meta["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-1500:])
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stdout
        b = sh("bash /opt/vp/test.sh /tmp/o.json")
        o = json.load(open("/tmp/o.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        meta["tests_missing"] = [s for s in st if s not in o["passed"]][:5]
        if not o["passed"]: print(b.stdout[-1500:])
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); meta["demo_bug"] = r.returncode
        print("demo:", r.stdout[-400:])
        res = {}
        for p in [prop] if not os.environ.get("ALL") else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]:
            c = sh("python3 check.py " + p, cwd=V); res[p] = c.returncode
            if c.returncode: print(c.stdout[-1200:])
        meta["check"] = res
    finally:
        restore()
        sh("bash /opt/vp/build.sh")
    good = meta["demo_clean"] == 0 and meta["demo_bug"] != 0 and not meta["tests_missing"]
    print("SEED", os.path.basename(d), "VALID" if good else "INVALID", "CAUGHT" if meta["check"].get(prop) == 1 else "MISSED", meta)


def main():
    if os.path.isdir(sys.argv[1]):
        d = os.path.abspath(sys.argv[1]); trial(d, json.load(open(d + "/meta.json"))["property"]); return
    g = {}
    exec(open(sys.argv[1]).read(), g)
    d = "%s/seeded/%s" % (V, g["ID"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        for f, old, new in g["EDITS"]:
            p = "/repo/" + f; t = open(p).read(); assert t.count(old) == 1, (f, t.count(old), old); open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        restore()
    cxx = g.get("CXX", False)
    open(d + ("/demo.cc" if cxx else "/demo.c"), "w").write(g["DEMO"].lstrip("\n"))
    body = g.get("SH") or ("""%s -O1 -w -Iinclude $(pkg-config --cflags cairo) "$here/demo.%s" -o "$tmp/demo" %s || exit 90
cd "$tmp" && timeout 120 ./demo
""" % (("g++ -std=c++11", "cc", LIBS) if cxx else ("gcc -std=gnu11", "c", LIBS)))
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: property observed to hold; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 91
trap 'rm -rf "$tmp"' EXIT
""" + body)
    json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    trial(d, g["PROP"])


main()
