#!/usr/bin/env python3
"""Turns the specifications in tools/seeds/*.py into /verif/seeded/<id>/ (patch, demo, meta) and, with --try,
applies each to /repo, rebuilds, runs the stable tests, the demo and the property's check, and undoes it."""
import difflib, glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, needs, breaks, cpp, src=(), m4=(), flags=""):
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, cpp=cpp, src=src, m4=m4, flags=flags)


DEMO = '''#!/bin/bash
# builds a small program against /repo's sources; exit 0: the property holds here
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
objs=""
for f in %(m4)s; do
  m4 /repo/m4/$f.m4 -I/repo/m4 > "$t/$f.f"
  gfortran -O1 -c "$t/$f.f" -o "$t/$f.o"
  objs="$objs $t/$f.o"
done
srcs=""
for f in %(src)s; do srcs="$srcs /repo/src/$f"; done
g++ -std=c++17 -O1 -w -fopenmp %(flags)s -DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP -DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP \\
  -I/repo/src -I/repo/src/cuda "$here/demo.cpp" $srcs $objs -lgfortran -o "$t/demo"
export OMP_NUM_THREADS=2 OMP_WAIT_POLICY=passive
timeout 120 "$t/demo"
'''


def write(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in s["edits"]:
        p = files.get(f) or open("/repo/" + f).read()
        n = 1
        if isinstance(old, tuple):
            old, n = old
        assert p.count(old) >= 1, (s["id"], f, old)
        if n == 1:
            assert p.count(old) == 1, (s["id"], f, p.count(old), old)
            p = p.replace(old, new)
        else:  # n-th occurrence, 1-based, given as (old, -n)
            k = -n
            parts = p.split(old)
            p = old.join(parts[:k]) + new + old.join(parts[k:])
        files[f] = p
    out = ""
    for f, p in files.items():
        a = open("/repo/" + f).read().splitlines(True)
        b = p.splitlines(True)
        out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a, b, "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.cpp", "w").write(s["cpp"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % dict(m4=" ".join(s["m4"]), src=" ".join(s["src"]), flags=s["flags"]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def attempt(i, check=True, full=True):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    res = []
    tmp = tempfile.mkdtemp(prefix="seedtry.")
    try:
        r = sh("cp -a %s %s/x && cd /repo && bash %s/x/demo.sh" % (d, tmp, tmp), timeout=300)
        res.append("demo-clean=%d" % r.returncode)
        if r.returncode: print(r.stdout[-2000:])
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            print(i, "patch does not apply", a.stdout)
            return
        if full:
            r = sh("bash /opt/vp/test.sh %s/t.json" % tmp)
            t = json.load(open(tmp + "/t.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            base = base.get("stable") or base.get("passed") or base
            miss = [x for x in base if x not in t["passed"]] if isinstance(base, list) else ["?"]
            res.append("tests-missing=%d" % len(miss))
            if miss: print(i, "broken tests", miss[:5], r.stdout[-200:].replace(chr(10),' '))
        r = sh("cd /repo && bash %s/x/demo.sh" % tmp, timeout=300)
        res.append("demo-bug=%d" % r.returncode)
        res.append("[" + r.stdout.strip()[-160:].replace("\n", " / ") + "]")
        if check:
            r = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 check.py --prop %s" % (V, prop), timeout=900)
            caught = r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout
            res.append("CAUGHT" if caught else "MISSED rc=%d" % r.returncode)
            if r.returncode not in (0, 1): print(r.stdout[-2500:])
    finally:
        sh("git -C /repo checkout -- .")
        shutil.rmtree(tmp)
    print(i, prop, *res, flush=True)


if __name__ == "__main__":
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        exec(open(f).read())
    want = [a for a in sys.argv[1:] if not a.startswith("--")] or list(SEEDS)
    for i in want:
        if i in SEEDS:
            write(SEEDS[i])
    if "--try" in sys.argv:
        for i in want:
            attempt(i, "--nocheck" not in sys.argv, "--notest" not in sys.argv)
        sh("bash /opt/vp/build.sh")
