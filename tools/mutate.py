#!/usr/bin/env python3
"""Mutation campaign: small changes to the code under test, which checks notice them?

mutate.py LOG N SEED file[,file...] Cxx[,Cxx...]
Works on scratch copies (/tmp/mut.*), never on /repo."""
import os, random, re, shutil, subprocess, sys, time

LOG, N, SEED, FILES, CHECKS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(","), sys.argv[5].split(",")
W = "/tmp/mut.%d" % os.getpid()
os.makedirs(W)
subprocess.check_call(["git", "clone", "-q", "/repo", W + "/repo"])
subprocess.check_call(["git", "clone", "-q", "/verif", W + "/verif"])

SUBS = [
    (r"(?<![<>=!&|+\-*/-])<(?![<=])(?=\s)", ["<="]), (r"<=", ["<"]), (r"(?<![->=])>(?![>=])(?=\s\w)", [">="]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<=[\w\)\]] )\+(?= [\w\(])", ["-"]), (r"(?<=[\w\)\]] )-(?= [\w\(])", ["+"]), (r"(?<=[\w\)\]] )\*(?= [\w\(])", ["/", "+"]), (r"(?<=[\w\)\]] )/(?= [\w\(])", ["*"]),
    (r"(?<=[\w\)\]] )%(?= [\w\(])", ["/"]), (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]),
    (r"\+\+", ["--"]), (r"--", ["++"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]), (r"\b2\.0\b", ["3.0", "1.0"]), (r"\b3\.0\b", ["2.0"]), (r"\b6\.0\b", ["3.0"]), (r"\b8\.0\b", ["4.0"]),
    (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]), (r"\bbegin\(", ["end("]), (r"\bdown\b", ["up"]), (r"\bup\b", ["down"]),
    (r"\bi0\b", ["i1", "j0"]), (r"\bi1\b", ["i0", "j1"]), (r"\bj0\b", ["j1", "k0", "i0"]), (r"\bj1\b", ["j0", "k1", "i1"]), (r"\bk0\b", ["k1", "j0"]), (r"\bk1\b", ["k0", "j1"]),
    (r"\blb\b", ["ub"]), (r"\bub\b", ["lb"]), (r"\blower\b", ["upper"]), (r"\bupper\b", ["lower"]), (r"\bsize\b", ["stride"]), (r"\blo\b", ["hi"]), (r"\bhi\b", ["lo"]),
    (r"\bI\b", ["J"]), (r"\bJ\b", ["I", "K"]), (r"\bK\b", ["J"]), (r"grad_x", ["grad_y"]), (r"grad_y", ["grad_x", "grad_z"]), (r"grad_z", ["grad_y"]),
    (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]", "[2]"]), (r"\[2\]", ["[1]"]), (r"\bb0\b", ["b1"]), (r"\bb1\b", ["b0"]), (r"\bb2\b", ["b1"]), (r"\balpha\b", ["beta"]), (r"\bbeta\b", ["alpha"]),
    (r"\bdiff_t\b", ["int", "short"]), (r"\bint\b(?= [\w\[])", ["short", "unsigned"]), (r"\bauto&&", ["auto"]), (r"\bdecltype\(auto\)", ["auto"]), (r"\bconstexpr auto\b", ["constexpr float"]),
    (r"\bmap_index_v<(\w+), (\w+)>", ["0", "(N - 1)"]), (r"\bFWD\(", ["std::move("]), (r"\bstd::get<", ["1 + std::get<"]), (r"\bT\b(?= \w+[;=])", ["float"]), (r"\boffset\b", ["-offset"]),
    (r"\bagcw\b", ["ugcw"]), (r"\bugcw\b", ["agcw", "0"]), (r"\bgcw\b", ["0"]), (r"\brgcw\b", ["ugcw"]),
]


FSUBS = [
    (r"\.eq\.", [".ne."]), (r"\.ne\.", [".eq."]), (r"\.lt\.", [".le."]), (r"\.le\.", [".lt."]), (r"\.gt\.", [".ge."]), (r"\.ge\.", [".gt."]), (r"\.and\.", [".or."]), (r"\.or\.", [".and."]),
    (r"(?<=[\w\)])\s?\+\s?(?=[\w\(])", ["-"]), (r"(?<=[\w\)])\s?-\s?(?=[\w\(])", ["+"]), (r"(?<=[\w\)])\*(?=[\w\(])", ["/", "+"]), (r"(?<=[\w\)])/(?=[\w\(])", ["*"]),
    (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["1", "3"]), (r"\b2\.0?(?:d0|D0)?\b", ["3.0d0"]), (r"\b3\.0?(?:d0|D0)?\b", ["2.0d0"]), (r"\b4\b", ["5"]),
    (r"\bifirst0\b", ["ilast0"]), (r"\bilast0\b", ["ifirst0"]), (r"\bifirst1\b", ["ilast1", "ifirst0"]), (r"\bilast1\b", ["ifirst1", "ilast0"]), (r"\bifirst2\b", ["ifirst1"]), (r"\bilast2\b", ["ilast1"]),
    (r"\blo0\b", ["lo1"]), (r"\bhi1\b", ["hi0"]), (r"\balpha\b", ["beta"]), (r"\bbeta\b", ["alpha"]), (r"\bic0\b", ["ic1"]), (r"\bic1\b", ["ic0"]), (r"\bi\b", ["j"]), (r"\bj\b", ["i"]),
    (r"\bb0\b", ["b1"]), (r"\bb1\b", ["b0"]), (r"\bb2\b", ["b1"]), (r"\bdx0\b", ["dx1"]), (r"\bDIRICHLET\b", ["NEUMANN"]), (r"\bNEUMANN\b", ["ROBIN"]), (r"\bROBIN\b", ["DIRICHLET"]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
]
MAP = {"applystencil": "C21", "celladjustrhs": "C21", "cellblocksmooth": "C22", "cellsmooth": "C22", "celldiffusionapply": "C02", "celldiffusionflux": "C01",
       "celldiffusionstencilcoeffs": "C04,C03,C05,C08", "cellsetcorrectionbc": "C06", "copycoarsetofine": "C07", "node": "C23"}


def fcandidates(f):
    out = []
    lines = open(W + "/repo/" + f).read().split("\n")
    decl = False
    for ln, l in enumerate(lines):
        s = l.strip()
        if not s or l[0] in "cC*!" or "define(" in l or "include" in l:
            continue
        if not re.match(r"     \S", l):
            decl = bool(re.match(r"(integer|REAL|double|subroutine|recursive|implicit|parameter|character|logical|end\b|return|enddo|endif|else$|external)", s))
        if decl:
            continue
        for pat, reps in FSUBS:
            for m in re.finditer(pat, l):
                if m.start() >= 6:
                    for r in reps:
                        out.append((f, ln, m.start(), m.end(), r))
    return out


def candidates():
    out = []
    for f in FILES:
        if f.endswith(".m4"):
            out += fcandidates(f)
            continue
        for ln, l in enumerate(open(W + "/repo/" + f).read().split("\n")):
            s = l.strip()
            if not s or s.startswith(("//", "#", "*", "template", "typename", "using", "namespace", "}", "static_assert")) or "template" in s:
                continue
            code = l.split("//")[0]
            for pat, reps in SUBS:
                for m in re.finditer(pat, code):
                    if code.count("<", 0, m.start()) > code.count(">", 0, m.start()) and pat not in (r"<=",) and "(" not in code[:m.start()]:
                        continue  # template arguments
                    for r in reps:
                        out.append((f, ln, m.start(), m.end(), r))
            if s.endswith(";") and not s.startswith(("return", "auto", "const", "int ", "T ")) and re.search(r"[=(]", s):
                out.append((f, ln, len(l) - len(l.lstrip()), len(code.rstrip()), ";"))
    return out


C = candidates()
random.Random(SEED).shuffle(C)
print(len(C), "candidates")
log = open(LOG, "a")
done = caught = 0
for f, ln, a, b, r in C:
    if done >= N:
        break
    p = W + "/repo/" + f
    orig = open(p).read()
    L = orig.split("\n")
    old = L[ln]
    L[ln] = old[:a] + r + old[b:]
    open(p, "w").write("\n".join(L))
    res, t0 = None, time.time()
    # does the file itself still compile? (sources only)
    checks = CHECKS
    if checks == ["map"]:
        checks = [c for k, v in MAP.items() if os.path.basename(f).startswith(k) for c in v.split(",")]
    for c in checks:
        e = dict(os.environ, VERIF_REPO=W + "/repo", VERIF_SEED=str(1), VERIF_TIER="quick")
        q = subprocess.run(["python3", "check.py", "--prop", c], cwd=W + "/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if q.returncode == 1:
            res = "caught " + c
            break
        if q.returncode != 0:
            res = "nocompile" if "compile of" in q.stdout or "link of" in q.stdout else "error " + c + " " + q.stdout[-300:].replace("\n", " ")
            break
    open(p, "w").write(orig)
    if res != "nocompile":
        done += 1
        log.write("%s | %s:%d | %s | %s | %.0fs\n" % (res or "SURVIVED", f, ln + 1, old.strip(), L[ln].strip(), time.time() - t0))
        log.flush()
    for x in os.listdir(W + "/verif/build"):
        y = W + "/verif/build/" + x
        if "-" in x and os.path.isfile(y) and "." not in x and time.time() - os.path.getmtime(y) > 600:
            os.remove(y)
shutil.rmtree(W)
