#!/usr/bin/env python3
"""check.py --prop Cxx [--tier quick|thorough]

Builds the monitors and the code under test from /repo's working tree, runs them and judges.
exit 0: nothing observed contradicts the property.  exit 1: a line
"VIOLATION property=<id> replay=<path>" was printed.  Any other exit: the check itself failed.
"""
import argparse, array, json, os, re, subprocess, sys, time, concurrent.futures as cf, shutil, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build
from props import PROPS

JOBS = 8


def environment(threads):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0", OMP_DYNAMIC="false",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1:detect_stack_use_after_return=1",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1", TSAN_OPTIONS="halt_on_error=1")
    return e


class Result:
    def __init__(self):
        self.evals = self.compared = 0
        self.distinct = set()
        self.per_key, self.counters, self.samples = {}, {}, []
        self.viol = []  # (key, message, replay command)
        self.steps = []


def run_shard(cmd, threads, timeout, log):
    try:
        with open(log, "w") as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=environment(threads), timeout=timeout)
        return p.returncode
    except subprocess.TimeoutExpired:
        return "timeout"


def shard(res, prefix, exe, args, seed, threads, timeout, work, tag):
    js = os.path.join(work, tag + ".json")
    log = os.path.join(work, tag + ".log")
    cmd = prefix + [exe] + args + ["--seed", str(seed), "--json", js]
    rc = run_shard(cmd, threads, timeout, log)
    if rc == 97:  # a hang: only believed when it happens again
        rc = run_shard(cmd, threads, timeout, log)
    text = open(log, errors="replace").read()
    viol = [l[5:] for l in text.split("\n") if l.startswith("VIOL ")]
    if rc in (0, 1, 97, 98) or (viol and rc != "timeout"):
        if rc != 0 and not viol:
            raise build.BuildError("monitor ended with %s and no verdict: %s\n%s" % (rc, " ".join(cmd), text[-3000:]))
    else:
        raise build.BuildError("monitor ended with %s: %s\n%s" % (rc, " ".join(cmd), text[-3000:]))
    r = None
    if os.path.exists(js):
        r = json.load(open(js))
    h = array.array("Q")
    if os.path.exists(js + ".h"):
        h.frombytes(open(js + ".h", "rb").read())
    san = [l for l in text.split("\n") if re.search(r"runtime error|ERROR: AddressSanitizer|Fortran runtime error", l)]
    return r, h, viol, san, "OMP_NUM_THREADS=%d %s" % (threads, " ".join(cmd))


def execute(prop, tier, seed, work):
    res = Result()
    for n, st in enumerate(PROPS[prop]["steps"]):
        t0 = time.time()
        exe, args = st["make"](seed, tier)
        tb = time.time() - t0
        shards = st.get("shards", JOBS)
        per = st["thorough"] if tier == "thorough" else st["quick"]
        threads = st.get("threads", [1, 2, 3, 4, 2, 6, 3, 8])
        jobs = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for i in range(shards):
                a = args + ["--cases", str(per)]
                e = exe[i % len(exe)] if isinstance(exe, list) else exe
                jobs.append(ex.submit(shard, res, st.get("prefix", []), e, a, seed * 1000 + n * 100 + i, threads[i % len(threads)],
                                      7200 if tier == "thorough" else 600, work, "s%d_%d" % (n, i)))
            outs = [j.result() for j in jobs]
        ev = 0
        for r, h, viol, san, cmd in outs:
            if r:
                ev += r["evaluations"]
                res.compared += r["compared"]
                for k, v in r["per_key"].items():
                    res.per_key[k] = res.per_key.get(k, 0) + v
                for k, v in r["counters"].items():
                    res.counters[k] = res.counters.get(k, 0) + v
                res.samples += r["samples"][:3]
            res.distinct.update(((n << 64) | x) for x in h)
            for v in viol:
                key, _, msg = v.partition("|")
                res.viol.append((key, msg + ("  [" + san[0].strip() + "]" if san else ""), cmd))
        res.evals += ev
        res.steps.append({"step": st["name"], "evaluations": ev, "build_s": round(tb, 1), "run_s": round(time.time() - t0 - tb, 1)})
        if ev == 0 and not any(o[2] for o in outs):
            raise build.BuildError("step %s observed nothing" % st["name"])
    return res


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--setup", action="store_true", help="only check that the tools are there; every check builds what it needs")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    o = ap.parse_args()
    if o.setup:
        missing = [t for t in ("g++", "gfortran", "m4", "python3", "valgrind") if not shutil.which(t)]
        print("missing: %s" % missing if missing else "tools present")
        return 1 if missing else 0
    tier = "thorough" if o.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[o.prop]
    t0 = time.time()
    work = os.path.join(build.OUT, "run-%s-%d" % (o.prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        res = execute(o.prop, tier, seed, work)
    except Exception as e:
        sys.stderr.write("CHECK ERROR property=%s: %s\n" % (o.prop, e if isinstance(e, build.BuildError) else traceback.format_exc()))
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kf = known(o.prop)
    hit, fresh = {}, []
    for key, msg, cmd in res.viol:
        k = next((d for k, d in kf if k == key), None)
        if k is not None:
            hit[key] = k
        else:
            fresh.append((key, msg, cmd))
    for k, d in kf:
        print("KNOWN-FINDING: property=%s %s" % (o.prop, d))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": o.prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res.evals, "distinct_nontrivial": len(res.distinct), "rule": P["rule"],
            "samples": res.samples[:12], "elements_compared": res.compared, "per_target": res.per_key,
            "observed": res.counters, "steps": res.steps,
        },
        "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    path = os.path.join(VERIF, "evidence", o.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    if fresh:
        rp = os.path.join(VERIF, "evidence", "replay-%s.txt" % o.prop)
        seen = set()
        with open(rp, "w") as f:
            for key, msg, cmd in fresh:
                f.write("%s\n  %s\n  replay: %s\n" % (key, msg, cmd))
                if key not in seen and len(seen) < 20:
                    seen.add(key)
                    print("  %s: %s" % (key, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (o.prop, rp))
        return 1
    print("held: property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d compared=%d wall=%.1fs" %
          (o.prop, tier, seed, res.evals, len(res.distinct), res.compared, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
