"""Builds what the monitors need from /repo's working tree.

Everything goes to /verif/build (ignored by git).  An object is reused only when the compile
command and the contents of every file the compiler read (its depfile) are the same.
"""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
SRC = os.path.join(VERIF, "src")
JOBS = min(8, os.cpu_count() or 4)

THRUST = ["-fopenmp", "-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP", "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP"]
INC = ["-I" + REPO + "/src", "-I" + REPO + "/src/cuda"]
CXX = ["g++", "-std=c++17", "-w"] + THRUST + INC


class BuildError(Exception):
    pass


_hash_lock = threading.Lock()
_hashes = {}


def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "absent"
    k = (p, st.st_mtime_ns, st.st_size)
    with _hash_lock:
        if k in _hashes:
            return _hashes[k]
    if p.startswith("/usr/"):
        h = "%d.%d" % (st.st_mtime_ns, st.st_size)
    else:
        with open(p, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    with _hash_lock:
        _hashes[k] = h
    return h


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


def parse_deps(path):
    try:
        t = open(path).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    if ":" not in t:
        return None
    return t.split(":", 1)[1].split()


def compile_obj(cmd, src, tag):
    """cmd without -c/-o; returns the object path"""
    os.makedirs(OUT, exist_ok=True)
    key = hashlib.sha1(("\0".join(cmd) + "\0" + src).encode()).hexdigest()[:16]
    base = os.path.join(OUT, tag + "-" + key)
    obj, dep, stamp = base + ".o", base + ".d", base + ".s"
    deps = parse_deps(dep)
    if deps and os.path.exists(obj) and os.path.exists(stamp):
        sig = hashlib.sha1("".join(p + fhash(p) for p in deps).encode()).hexdigest()
        if open(stamp).read() == sig:
            return obj
    tmp = base + ".%d.tmp.o" % os.getpid()
    r = run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", tmp])
    if r.returncode:
        raise BuildError("compile of %s failed:\n%s\n%s" % (src, " ".join(cmd), r.stdout[-6000:]))
    os.replace(tmp, obj)
    deps = parse_deps(dep) or [src]
    with open(stamp, "w") as f:
        f.write(hashlib.sha1("".join(p + fhash(p) for p in deps).encode()).hexdigest())
    return obj


def fortran_obj(m4name, flags, tag):
    os.makedirs(OUT, exist_ok=True)
    src = "%s/m4/%s.m4" % (REPO, m4name)
    r = subprocess.run(["m4", src, "-I" + REPO + "/m4"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    if r.returncode:
        raise BuildError("m4 %s failed: %s" % (src, r.stderr[-2000:]))
    cmd = ["gfortran", "-w"] + flags
    key = hashlib.sha1(("\0".join(cmd) + r.stdout).encode()).hexdigest()[:16]
    base = os.path.join(OUT, "%s-%s-%s" % (tag, m4name, key))
    if os.path.exists(base + ".o"):
        return base + ".o"
    with open(base + ".f", "w") as f:
        f.write(r.stdout)
    tmp = base + ".%d.tmp.o" % os.getpid()
    r = run(cmd + ["-c", base + ".f", "-o", tmp])
    if r.returncode:
        raise BuildError("gfortran %s failed:\n%s" % (src, r.stdout[-6000:]))
    os.replace(tmp, base + ".o")
    return base + ".o"


def parallel(jobs):
    """jobs: list of callables; returns their results in order, raises the first error"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def link(cmd, objs, name, flavour="rel"):
    """links; code that moved into another source file of the repository is looked for there"""
    try:
        return link1(cmd, objs, name)
    except BuildError as e:
        if "undefined reference" not in str(e):
            raise
        more = []

        def one(p):
            try:
                more.append(compile_obj(CXX + FLAVOUR[flavour][0], p, flavour + "-more-" + os.path.basename(p).split(".")[0]))
            except BuildError:
                pass
        parallel([lambda p=p: one(p) for p in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
                  if not p.endswith(".t.cpp") and not p.endswith("_test.cpp")])

        def onef(p):
            try:
                more.append(fortran_obj(os.path.basename(p)[:-3], FLAVOUR[flavour][1], flavour))
            except BuildError:
                pass
        if "-lgfortran" in cmd:
            parallel([lambda p=p: onef(p) for p in sorted(glob.glob(REPO + "/m4/*.m4"))])
        if not more:
            raise
        h = hashlib.sha1("\0".join(fhash(o) for o in sorted(more)).encode()).hexdigest()[:16]
        lib = os.path.join(OUT, "more-%s-%s.a" % (flavour, h))
        if not os.path.exists(lib):
            r = run(["ar", "rcs", lib + ".%d.tmp" % os.getpid()] + sorted(more))
            if r.returncode:
                raise
            os.replace(lib + ".%d.tmp" % os.getpid(), lib)
        return link1(cmd, objs + [lib], name)


def link1(cmd, objs, name):
    os.makedirs(OUT, exist_ok=True)
    h = hashlib.sha1("\0".join(cmd + [fhash(o) for o in objs]).encode()).hexdigest()[:16]
    exe = os.path.join(OUT, name + "-" + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    r = run(cmd + objs + ["-o", tmp] + [x for x in cmd if x.startswith("-l")])
    if r.returncode:
        raise BuildError("link of %s failed:\n%s" % (name, r.stdout[-6000:]))
    os.replace(tmp, exe)
    return exe


def linker(flavour):
    """start and end of the link command, objects added"""
    lf = FLAVOUR[flavour][3]
    if flavour == "sched":
        return ["g++"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "free", "__cxa_guard_acquire", "__cxa_guard_release")] + ["-lm", "-lpthread"]
    return ["g++", "-fopenmp"] + lf + ["-lm", "-lpthread"]


def runtime(flavour):
    return [compile_obj(["g++", "-std=c++17", "-O2", "-w", "-I" + SRC], SRC + "/sched_rt.cpp", "sched-rt"),
            compile_obj(["g++", "-std=c++17", "-fopenmp"] + FLAVOUR["sched"][0], SRC + "/sched_control.cpp", "sched-control")] if flavour == "sched" else []


# ------------------------------------------------------------------ the kernel monitors
DIMS = ["1d", "2d", "3d"]
KERNELS = {
    "flux_apply": ["cdf_%s_cuda" % d for d in DIMS] + ["cd_apply_%s_cuda" % d for d in DIMS],
    "stencil": ["cd_stencil_%s_cuda" % d for d in DIMS],
    "bc": ["cd_correct_bc_%s_cuda" % d for d in DIMS] + ["coarse_to_fine_cuda"],
    "fort": [],
}
FORTRAN = {
    "flux_apply": [p % d for p in ("celldiffusionflux%s", "celldiffusionapply%s", "nodediffusionflux%s", "nodediffusionapply%s") for d in DIMS],
    "stencil": [p % d for p in ("celldiffusionstencilcoeffs%s", "nodediffusionstencilcoeffs%s") for d in DIMS],
    "bc": ["cellsetcorrectionbc%s" % d for d in DIMS] + ["copycoarsetofine"],
    "fort": [p % d for p in ("applystencil%s", "celladjustrhs%s", "cellsmooth%s", "cellblocksmooth%s") for d in DIMS] + ["copycoarsetofine"],
}
FLAVOUR = {
    # kernels, fortran, harness, link
    "rel": (["-O2", "-DNDEBUG"], ["-O2"], ["-O1"], []),
    "asan": (["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=null", "-fno-omit-frame-pointer"],
             ["-O1", "-g1", "-fsanitize=address", "-fcheck=bounds,pointer,mem,do"],
             ["-O1", "-g1", "-fsanitize=address"], ["-fsanitize=address,undefined"]),
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-O1", "-g1", "-fsanitize=thread"], ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "vg": (["-O1", "-g1", "-DNDEBUG"], ["-O1", "-g1"], ["-O1"], []),
    # instrumentation calls answered by src/sched_rt.cpp instead of the ThreadSanitizer library
    "sched": (["-O1", "-g1", "-fsanitize=thread"], ["-O2"], ["-O1"], []),
}


def kern(fams, flavour="rel", fortran=True, main="kern_main.cpp", extra=()):
    kf, ff, hf, lf = FLAVOUR[flavour]
    jobs = []
    nf = [] if fortran else ["-DNO_FORTRAN"]
    add = jobs.append
    add(lambda: compile_obj(CXX + hf + list(extra), SRC + "/" + main, flavour + "-" + main.split(".")[0]))
    for fam in fams if main == "kern_main.cpp" else []:
        for t in ["double", "float"] if fam != "fort" else ["double"]:
            add(lambda fam=fam, t=t: compile_obj(CXX + hf + nf + ["-DFAM_" + fam, "-DTYPE=" + t], SRC + "/reg.cpp",
                                                 flavour + "-reg-%s-%s" % (fam, t)))
    add(lambda: compile_obj(CXX + hf, SRC + "/call.cpp", flavour + "-call"))
    for k in sorted({k for f in fams for k in KERNELS[f]}):
        add(lambda k=k: compile_obj(CXX + kf, "%s/src/cuda/%s.cpp" % (REPO, k), flavour + "-" + k))
    if fortran:
        for m in sorted({m for f in fams for m in FORTRAN[f]}):
            add(lambda m=m: fortran_obj(m, ff, flavour))
        add(lambda: compile_obj(["gcc", "-O1"], SRC + "/lapack_standin.c", "lapack"))
    objs = parallel(jobs)
    return link(linker(flavour) + ["-lgfortran"], objs + runtime(flavour), "kern-" + flavour, flavour)


# ------------------------------------------------------------------ monitors of the headers
def units(units, name, flavour="asan", extra_src=()):
    """units: list of (source in src/ or absolute path, [defines], tag); one program each -> paths"""
    kf, ff, hf, lf = FLAVOUR[flavour]
    extra = [lambda p=p: compile_obj(CXX + kf, p, flavour + "-" + os.path.basename(p).split(".")[0]) for p in extra_src]
    objs = parallel([lambda u=u: compile_obj(CXX + ["-I" + SRC] + kf + u[1], u[0] if u[0].startswith("/") else SRC + "/" + u[0], "%s-%s" % (flavour, u[2]))
                     for u in units] + extra)
    n = len(units)
    return parallel([lambda o=o, u=u: link(linker(flavour), [o] + objs[n:] + runtime(flavour), "%s-%s" % (name, u[2]), flavour) for o, u in zip(objs, units)])


# ------------------------------------------------------------------ generated programs of the expression language
def dsl(kind, seed, n, flavour="asan", extra_programs=(), nparts=8, npairs=1):
    """n generated programs in nparts translation units, linked with the interpreter -> path"""
    import gendsl
    kf, ff, hf, lf = FLAVOUR[flavour]
    progs = gendsl.programs(kind, seed, n) + list(extra_programs)
    cmd = CXX + ["-I" + SRC] + kf
    d = os.path.join(OUT, "dsl")
    os.makedirs(d, exist_ok=True)

    def part(k, ps, name):
        text = gendsl.source(ps)
        p = os.path.join(d, "%s-%s.cpp" % (kind, hashlib.sha1(text.encode()).hexdigest()[:12]))
        with open(p + ".%d.tmp" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(p + ".%d.tmp" % os.getpid(), p)
        return compile_obj(cmd + ["-DPART=%s" % name], p, "dsl-" + flavour)

    dropped = []

    def unit(k):
        ps = progs[k::nparts]
        try:
            return part(k, ps, "progs%d" % k)
        except BuildError as e:
            # keep the programs that compile
            good = []
            for p in ps:
                try:
                    part(k, [p], "probe")
                    good.append(p)
                except BuildError:
                    dropped.append(p)
            if not good:
                raise e
            return part(k, good, "progs%d" % k)

    objs = parallel([lambda k=k: unit(k) for k in range(nparts)] +
                    [lambda: compile_obj(CXX + ["-I" + SRC] + hf + ["-DNPARTS=%d" % nparts], SRC + "/dsl_main.cpp", "dslmain-" + flavour)])
    if len(dropped) * 2 > len(progs):
        raise BuildError("most generated programs do not compile, e.g. %s" % dropped[0][0][-1])
    for p in dropped:
        sys.stderr.write("note: does not compile: %s\n" % p[0][-1])
    return link(linker(flavour), objs + runtime(flavour), "dsl-%s-%s" % (kind, flavour), flavour)
