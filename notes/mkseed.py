#!/usr/bin/env python3
"""mkseed.py FILE.py [--nocheck]: plants the bugs described in FILE.py (a list SEEDS of dicts: id, property,
needs, breaks, edits=[(file, old, new)], demo=C++ text, srcs=[repo sources], flags, shim) in a scratch worktree,
confirms that the tree builds, passes the stable tests, and that the demo tells them apart, writes
/verif/seeded/<id>/ and runs the property's check against the scratch tree."""
import json, os, shutil, subprocess, sys
V = "/verif"
WT, BD = "/tmp/seed_wt", "/tmp/seed_build"
DEMO = """#!/bin/bash
# exit 0: the library behaves; nonzero: it does not.  Run with cwd = the repository.
HERE="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
INC=""
for m in AlexandriaKernel Configuration FilePool GridContainer Histogram KdTree MathUtils NdArray PhysicsUtils SOM SourceCatalog Table XYDataset; do INC="$INC -I$PWD/$m"; done
g++ -std=gnu++14 -O1 -w -pthread %(flags)s -I"$HERE/shim" $INC "$HERE/demo.cpp" %(srcs)s -o "$T/demo" %(libs)s || exit 3
cd "$T" && timeout 120 ./demo
"""
LIBS = "-lboost_filesystem -lboost_iostreams -lboost_program_options -lboost_regex -lboost_serialization -lboost_system -lboost_thread -lpthread"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def fresh():
    if not os.path.isdir(WT):
        r = sh("git", "-C", "/repo", "worktree", "add", "--detach", WT, "HEAD")
        assert r.returncode == 0, r.stderr
    head = os.environ.get("SEED_HEAD") or sh("git", "-C", "/repo", "rev-parse", "HEAD").stdout.strip()
    sh("git", "-C", WT, "checkout", "-q", "--force", head)
    sh("git", "-C", WT, "clean", "-fdq")


def tests():
    e = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", LC_ALL="C.UTF-8")
    if not os.path.exists(BD + "/build.ninja"):
        r = sh("cmake", "-S", "/opt/vp/alexandria", "-B", BD, "-G", "Ninja", "-DREPO=" + WT, "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
               "-DCMAKE_CXX_FLAGS=-Wno-error", env=e)
        assert r.returncode == 0, r.stderr
    r = sh("ninja", "-C", BD, env=e)
    if r.returncode:
        return "does not build: " + r.stdout[-1500:]
    r = sh("python3", "/opt/vp/alexandria/run_tests.py", BD, env=e)
    open(BD + "/results.txt", "w").write(r.stdout)
    sh("python3", "/opt/vp/results.py", BD + "/out.json", "lines:" + BD + "/results.txt")
    o = json.load(open(BD + "/out.json"))
    if o["failed"] or len(o["passed"]) != 70:
        return "tests fail: %s" % o["failed"]


def plant(s, check=True):
    fresh()
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, True)
    os.makedirs(d)
    for f, a, b in s["edits"]:
        p = os.path.join(WT, f)
        t = open(p).read()
        if t.count(a) != 1:
            print(s["id"], "EDIT does not match once:", f, t.count(a), a[:80])
            shutil.rmtree(d)
            return
        open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git", "-C", WT, "diff").stdout)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(s["demo"])
    shutil.copytree(V + "/shim", d + "/shim")
    open(d + "/demo.sh", "w").write(DEMO % dict(flags=s.get("flags", ""), srcs=" ".join('"$PWD/%s"' % x for x in s.get("srcs", [])), libs=LIBS))
    os.chmod(d + "/demo.sh", 0o755)
    t = tests()
    good = sh("bash", d + "/demo.sh", cwd="/repo")
    bad = sh("bash", d + "/demo.sh", cwd=WT)
    ok = not t and good.returncode == 0 and bad.returncode not in (0, 3)
    print(s["id"], "CONFIRMED" if ok else "NOT CONFIRMED", t or "", "demo", good.returncode, bad.returncode,
          "" if ok else (good.stderr + good.stdout)[-1500:] + (bad.stderr + bad.stdout)[-1500:], flush=True)
    if not ok:
        shutil.rmtree(d)
        return
    if check:
        for pid in [s["property"]] + s.get("also", []):
            r = sh("python3", V + "/check.py", pid, env=dict(os.environ, VERIF_REPO=WT))
            last = [l for l in r.stdout.splitlines() if l.strip()][-1:]
            print("   ", pid, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR", last[0][:300] if last else r.stderr[-600:], flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:], r.stderr[-500:])


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    for s in g["SEEDS"]:
        if not only or s["id"] in only:
            plant(s, "--nocheck" not in sys.argv)
    fresh()


main()
