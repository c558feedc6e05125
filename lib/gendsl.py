"""Generates programs of the expression language: C++ statements written the way the kernels
write them, each with a description (prefix notation) the monitor interprets.

kind: expr (C13), window (C14), dot (C15)
"""
import itertools, random

AX = {0: "K", 1: "J", 2: "I", 3: "W"}
LET = {2: "x", 1: "y", 0: "z"}
CT = {"d": "double", "f": "float", "i": "int"}


class Gen:
    def __init__(self, kind, seed):
        self.r = random.Random("%s/%s" % (kind, seed))
        self.kind = kind

    # ------------------------------------------------------------------ one program
    def program(self, shape=None):
        r = self.r
        self.shape = shape or {}
        D = self.shape.get("D") or r.choice([1, 2, 2, 3, 3])
        axes = self.shape.get("axes") or r.sample([0, 1, 2], D)
        if self.shape.get("axes") is None and r.random() < .5:
            axes = {1: [2], 2: [1, 2], 3: [0, 1, 2]}[D]
        self.order = list(axes)
        self.views, self.nd, self.ni, self.nh = [], 0, 0, 0
        self.hoist, self.prefer = [], None
        self.type = self.shape.get("type") or r.choice("dddddffi" if self.kind == "expr" else "dddf")
        self.text, self.stmts = [], []
        self.strided = [True] * 4
        {"expr": self.do_expr, "window": self.do_window, "dot": self.do_dot}[self.kind]()
        return self.emit()

    def newview(self, const, typ=None, w=False, out=False):
        if typ is None:
            typ = self.type
            if not out and typ != "i" and self.r.random() < .15:  # views of other types take part
                typ = self.r.choice("dfi")
        o = list(self.order)
        if self.r.random() < .4:
            self.r.shuffle(o)
        v = dict(id=len(self.views), t=typ, const=const, axes=o + ([3] if w else []), w=w, out=out, gcw=self.r.random() < .3)
        self.views.append(v)
        return v

    def slot(self, c):
        n = {"d": "nd", "i": "ni", "h": "nh"}[c]
        k = getattr(self, n)
        if k >= 10 or (k and self.r.random() < .25):
            return self.r.randrange(k)
        setattr(self, n, k + 1)
        return k

    # every helper returns (c++, prefix text)
    def num(self):
        r = self.r
        if self.type == "i" or r.random() < .3:
            if r.random() < .4:
                n = r.choice([2, 3, 4, 5, 7])
                return str(n), "c%d" % n
            k = self.slot("i")
            return "c.i[%d]" % k, "ni%d" % k
        if r.random() < .2:
            n = r.choice(["0.5", "2.0", "1.25", "3.0"])
            return n, "c" + n
        k = self.slot("d")
        if r.random() < .15:
            k2 = self.slot("d")
            return "(c.d[%d] * c.d[%d])" % (k, k2), "* nd%d nd%d" % (k, k2)
        return "c.d[%d]" % k, "nd%d" % k

    def ref(self):
        """some readable view, new or already there"""
        c = [v for v in self.views if not v["out"] and not v["w"]]
        p = getattr(self, "prefer", None)
        if p and p in c and self.r.random() < .5:
            return p
        if c and (len(self.views) >= 8 or self.r.random() < .45):
            return self.r.choice(c)
        return self.newview(self.r.random() < .6)

    def leaf(self):
        r = self.r
        x = r.random()
        if self.kind == "dot" and x < .45:
            return self.dotleaf()
        v = self.ref()
        n = "v%d" % v["id"]
        if x < .55 or v.get("row"):
            return n, n
        if x < .78:
            a = r.choice(self.order)
            self.strided[a] = False
            h = "c.i[%d]" % self.slot("i") if v["t"] == "i" else "c.d[%d]" % self.slot("d")
            d = r.choice(["", ", up", ", down"])
            return "%s.grad_%s(%s%s)" % (n, LET[a], h, d), "g%d %d %d %s" % (v["id"], a, 0 if d != ", down" else -1, "n" + h[2] + h[4:-1])
        if len(self.order) > 1 and r.random() < .5:
            a, b = sorted(r.sample(self.order, 2), reverse=True)  # x=2 first
            if r.random() < .12:  # default arguments: one cell
                if r.random() < .5:
                    return "%s.shift_%s%s()" % (n, LET[a], LET[b]), "s%d 2 %d 10 %d 10" % (v["id"], a, b)
                s = self.slot("h")
                return "%s.shift_%s%s(c.h[%d])" % (n, LET[a], LET[b], s), "s%d 2 %d %d %d 10" % (v["id"], a, s, b)
            s, t = self.slot("h"), self.slot("h")
            return "%s.shift_%s%s(c.h[%d], c.h[%d])" % (n, LET[a], LET[b], s, t), "s%d 2 %d %d %d %d" % (v["id"], a, s, b, t)
        a = r.choice(self.order)
        if r.random() < .12:
            return "%s.shift_%s()" % (n, LET[a]), "s%d 1 %d 10" % (v["id"], a)
        s = self.slot("h")
        return "%s.shift_%s(c.h[%d])" % (n, LET[a], s), "s%d 1 %d %d" % (v["id"], a, s)

    def denom(self):
        """something that is never close to zero"""
        v = self.ref()
        n = "v%d" % v["id"]
        if self.type != "i" and self.r.random() < .3:
            k = self.slot("d")
            if self.r.random() < .5:
                return "(%s + c.d[%d])" % (n, k), "+ %s nd%d" % (n, k)
            return "(c.d[%d] + %s)" % (k, n), "+ nd%d %s" % (k, n)
        return n, n

    def expr(self, depth, top=False):
        r = self.r
        if depth == 0 or (not top and r.random() < .2):
            return self.leaf()
        op = r.choice("+-*/+-*")
        x = r.random()
        if op == "/":
            if x < .4:
                a = self.expr(depth - 1)
                b = self.num()
            elif x < .7:
                a = self.expr(depth - 1)
                b = self.denom()
            else:
                a = self.num()
                b = self.denom()
        elif x < .25:
            a, b = self.num(), self.expr(depth - 1)
        elif x < .45:
            a, b = self.expr(depth - 1), self.num()
        else:
            a, b = self.expr(depth - 1), self.expr(max(0, depth - 1 - (r.random() < .5)))
        return self.join(op, a, b)

    def join(self, op, a, b, hoist=True):
        c = "(%s %s %s)" % (a[0], op, b[0])
        t = "%s %s %s" % (op, a[1], b[1])
        if hoist and self.r.random() < .1:
            n = "e%d" % len(self.hoist)
            self.hoist.append("auto %s = %s;" % (n, c))
            return n, t
        return c, t

    # ------------------------------------------------------------------ C13
    def expr_stmt(self, depth):
        r = self.r
        if r.random() < .1:
            return self.num()
        e = self.expr(depth, top=True)
        return e

    def dotleaf(self):
        m = getattr(self, "m", None)
        u = self.ref()
        self.usedot = True
        return "v%d.dot(v%d.offset(thrust::device_ptr<int>(c.o)))" % (m["id"], u["id"]), "dot v%d v%d" % (m["id"], u["id"])

    # ------------------------------------------------------------------ C14
    def proxy(self, depth):
        """returns (c++, text, N): N views used outside"""
        r = self.r
        x = r.random()
        if depth == 0 or x < .15:
            k = r.randrange(self.nw)
            if r.random() < .15:
                return "-%s(%d)" % (self.mn, k), "neg m%d" % k, 0
            return "%s(%d)" % (self.mn, k), "m%d" % k, 0
        a = self.proxy(depth - 1)
        op = r.choice("+-*+-*/")
        if x < .3:
            n = self.num()
            if op == "/" or r.random() < .5:
                c, t = self.join(op, a, n, False)
            else:
                c, t = self.join(op, n, a, False)
            return c, t, a[2]
        if x < .62 and a[2] < 4:
            if op == "/":
                e = self.denom()
                c, t = self.join(op, a, e, False)
            elif r.random() < .5:
                c, t = self.join(op, self.expr(r.choice([0, 0, 1, 2])), a, False)
            else:
                c, t = self.join(op, a, self.expr(r.choice([0, 0, 1, 2])), False)
            return c, t, a[2] + 1
        if x < .72:
            return "-" + (a[0] if a[0].startswith("(") or a[0].startswith(self.mn) else "(" + a[0] + ")"), "neg " + a[1], a[2]
        # two proxies: at most one of them with views
        b = self.proxy(depth - 1)
        if a[2] and b[2]:
            k = r.randrange(self.nw)
            b = ("%s(%d)" % (self.mn, k), "m%d" % k, 0)
        if op == "/":
            op = "-"
        if r.random() < .5:
            a, b = b, a
        c, t = self.join(op, a, b, False)
        return c, t, max(a[2], b[2])

    def pair(self):
        r = self.r
        c = [v for v in self.views if not v["out"] and not v["w"]]
        v = self.ref()
        a = r.choice(self.order)
        self.strided[a] = False
        d = r.choice(["", "up", "down"])
        e = ("v%d.stencil_%s(%s)" % (v["id"], LET[a], d), "t%d %d %d" % (v["id"], a, -1 if d == "down" else 0))
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            n = self.num()
            op = r.choice("+-**/")
            e = self.join(op, e, n, False) if op == "/" or r.random() < .5 else self.join(op, n, e, False)
        return e

    def finish(self, kind, code, text):
        self.stmts.append(code)
        self.text.append(text)

    def do_expr(self):
        r = self.r
        n = r.choice([1, 1, 1, 2, 3])
        form = r.random()
        self.form = "domain"
        if n == 1 and form < .25:
            self.form = "lhs" if form < .12 else "none"
        for _ in range(n):
            e = self.expr_stmt(r.choice([1, 2, 2, 3, 4]))
            lhs = self.newview(False, out=True)
            if r.random() < .2:  # the old value of the element itself
                e = self.join(r.choice("+-*"), ("v%d" % lhs["id"], "v%d" % lhs["id"]), e, False)
            self.finish("A", "v%d = %s" % (lhs["id"], e[0]), "A %d %s" % (lhs["id"], e[1]))
            lhs["out"] = r.random() < .3  # later statements may read it

    def do_window(self):
        r = self.r
        m = self.newview(False, w=True, out=True)
        self.m, self.mn = m, "v%d" % m["id"]
        self.nw = m["nw"] = r.choice([2, 3, 4, 5, 7])
        self.form = "window"
        kind = self.shape.get("kind") or r.choice(["num", "mix", "mix", "mix", "self"])
        n = r.choice([1, 2, 3, 4]) if r.random() < .9 else r.choice([5, 6, 8, 9])
        if kind == "self":
            n = r.choice([1, 2, 2, 3])
            lhs = None
            for _ in range(n):
                old = lhs
                if lhs is None or r.random() < .6:
                    lhs = self.newview(False, out=True)
                    if old and r.random() < .7:  # a later statement reads what an earlier one changed
                        old["out"], old["row"] = False, True  # ... but only of its own row: the rows run in parallel
                        self.prefer = old
                p = self.proxy(r.choice([0, 1, 2, 3]))
                self.finish("R", "v%d -= %s" % (lhs["id"], p[0]), "R %d %s" % (lhs["id"], p[1]))
            return
        for q in range(n):
            i = r.randrange(self.nw)
            x = r.random()
            two = r.random() < .3
            if kind == "num" or (x < .15 and not (n == 1)):
                e = self.num()
                if two and kind == "num":
                    j = r.randrange(self.nw)
                    self.finish("2", "%s(%d, %d) = %s" % (self.mn, i, j, e[0]), "2 %d %d %s" % (i, j, e[1]))
                else:
                    self.finish("1", "%s(%d) = %s" % (self.mn, i, e[0]), "1 %d %s" % (i, e[1]))
            elif x < .4:
                j = r.choice([w for w in range(self.nw) if w != i])
                e = self.pair()
                self.finish("2", "%s(%d, %d) = %s" % (self.mn, i, j, e[0]), "2 %d %d %s" % (i, j, e[1]))
            elif x < .6:
                e = self.expr(r.choice([0, 1, 2, 3]), top=True)
                self.finish("1", "%s(%d) = %s" % (self.mn, i, e[0]), "1 %d %s" % (i, e[1]))
            else:
                e = self.proxy(r.choice([1, 2, 2, 3]))
                if e[1].startswith("m"):  # st(i) = st(j) is a plain C++ assignment of the proxies and does not compile
                    e = self.join("*", e, self.num(), False)
                self.finish("1", "%s(%d) = %s" % (self.mn, i, e[0]), "1 %d %s" % (i, e[1]))

    def do_dot(self):
        r = self.r
        m = self.newview(r.random() < .5, w=True)
        m["nw"] = r.choice([17, 27, 33, 40, 65]) if r.random() < .15 else r.choice([1, 2, 3, 5, 7, 9])
        self.m, self.mn = m, "v0"
        self.form = "domain"
        self.usedot = False
        if r.random() < .5:
            e = self.dotleaf()
        else:
            e = self.expr(r.choice([1, 2, 3]), top=True)
            if not self.usedot:
                e = self.join(r.choice("+-*"), e, self.dotleaf(), False)
        lhs = self.newview(False, out=True)
        self.finish("A", "v%d = %s" % (lhs["id"], e[0]), "A %d %s" % (lhs["id"], e[1]))

    # ------------------------------------------------------------------ output
    def emit(self):
        body = []
        for v in self.views:
            q = "const " if v["const"] else ""
            t = CT[v["t"]]
            if v["gcw"]:
                bs = ", ".join("%sb{c.vlo[%d][%d]%s, c.vhi[%d][%d]%s}" % (AX[a], v["id"], a, "" if a == 3 else " + 1", v["id"], a, "" if a == 3 else " - 1")
                               for a in v["axes"])
                body.append("auto v%d = make_md_span((%s%s*)c.p[%d], 1, %s);" % (v["id"], q, t, v["id"], bs))
            else:
                bs = ", ".join("%sb{c.vlo[%d][%d], c.vhi[%d][%d]}" % (AX[a], v["id"], a, v["id"], a) for a in v["axes"])
                body.append("auto v%d = make_md_span((%s%s*)c.p[%d], %s);" % (v["id"], q, t, v["id"], bs))
        body += self.hoist
        dom = ", ".join("%sb{c.dlo[%d], c.dhi[%d], c.ds[%d]}" % (AX[a], a, a, a) for a in self.order)
        st = ", ".join(self.stmts)
        x = self.r.random()
        first = ", ".join("%sb{c.dlo[%d], c.dlo[%d]}" % (AX[a], a, a) for a in self.order)
        some = " && ".join("c.dlo[%d] <= c.dhi[%d]" % (a, a) for a in self.order)
        if x < .25 and self.form in ("domain", "window"):
            # the driver and the statements as objects of their own, used more than once
            w = self.mn + ".window(), " if self.form == "window" else ""
            for k, q in enumerate(self.stmts):
                again = self.text[k].startswith("A") and "v%s" % self.text[k].split()[1] not in self.text[k].split()[2:]
                if x < .15 and self.form == "domain":
                    body.append("auto s%d = (%s);" % (k, q))
                    if again:  # once more, on one element only
                        body.append("if (%s) with_domain(%s)(s%d);" % (some, first, k))
                    q = "s%d" % k
                if k == 0:
                    body.append("auto D = with_domain(%s%s);" % (w, dom))
                body.append("D(%s);" % q)
        elif self.form == "domain":
            body.append("with_domain(%s)(%s);" % (dom, st))
        elif self.form == "none":
            body.append("with_domain()(%s);" % st)
        elif self.form == "lhs":
            body.append("with_lhs_domain(%s);" % st)
        else:
            body.append("with_domain(%s.window(), %s)(%s);" % (self.mn, dom, st))
        text = ["form %s" % self.form, "order " + " ".join(map(str, self.order)),
                "strided " + " ".join(str(int(self.strided[a])) for a in range(4))]
        for v in self.views:
            text.append("view %s %d %d %d %d %s" % (v["t"], v["const"], v["gcw"], v.get("nw", 0), len(v["axes"]), " ".join(map(str, v["axes"]))))
        text += ["stmt " + t for t in self.text]
        return body, text


def programs(kind, seed, n):
    g = Gen(kind, seed)
    out = []
    # a fixed round of shapes first, so that no seed misses a whole class
    shapes = [dict(D=D) for D in (1, 2, 3)] + [dict(type=t) for t in "dfi"[: 3 if kind == "expr" else 2]]
    if kind == "window":
        shapes += [dict(kind=k) for k in ("num", "mix", "self")]
    for q in range(n):
        out.append(g.program(shapes[q] if q < len(shapes) else None))
    return out


def strided_gradients():
    """a gradient along an axis the domain is strided in: a class of its own"""
    out = []
    for d, b in (("", 0), (", down", -1)):
        out.append((["auto v0 = make_md_span((double*)c.p[0], Ib{c.vlo[0][2], c.vhi[0][2]});", "auto v1 = make_md_span((double*)c.p[1], Ib{c.vlo[1][2], c.vhi[1][2]});",
                     "with_domain(Ib{c.dlo[2], c.dhi[2], c.ds[2]})(v1 = v0.grad_x(c.d[0]%s));" % d],
                    ["form domain", "key gradient-along-strided-axis", "order 2", "strided 1 1 1 1", "view d 0 0 0 1 2", "view d 0 0 0 1 2", "stmt A 1 g0 2 %d nd0" % b]))
    return out


def source(progs):
    s = ['#include "md_device_span.hpp"', '#include "dsl.hpp"']
    for n, (body, text) in enumerate(progs):
        s.append("static void run%d(Ctx& c)\n{\n    %s\n}" % (n, "\n    ".join(body)))
    s.append("extern const Prog PART[] = {")
    for n, (body, text) in enumerate(progs):
        s.append('    {"%s", "%s", run%d},' % ("\\n".join(text), " ".join(b for b in body if "= make_md_span(" not in b).replace('"', "'"), n))
    s.append("    {nullptr, nullptr, nullptr}};")
    return "\n".join(s) + "\n"


if __name__ == "__main__":
    import sys
    print(source(programs(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))))
