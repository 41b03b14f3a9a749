"""Checks of the NLP solver (S01..S06)."""
import json, math, random
from vlib import build
import gen_prog

TAME = ["neg", "addc", "csub", "mulc", "add", "sub", "sin", "cos", "tanh", "acc", "mul", "sq"]
INF = float("inf")
fl = lambda v: " ".join("inf" if x == INF else "-inf" if x == -INF else repr(x) for x in v)


class Nlp:
    kind = "nlp"

    def __init__(self, nx, ne, ni, np, sc="double", upd=0, reg=0, pre=0, fmt=0):
        self.__dict__.update(nx=nx, ne=ne, ni=ni, np=np, sc=sc, upd=upd, reg=reg, pre=pre, fmt=0)
        self.nv, self.nq = nx, np

    def unit(self, mode):
        nm = "sqp_n%d%d%d%d%s_%d%d%d_%d" % (self.nx, self.ne, self.ni, self.np, self.sc[0], self.upd, self.reg, self.pre, mode)
        return nm, ("sqp_unit.cpp", ["OCP_=0", "CLS=Class_" + nm, "NX_=%d" % self.nx, "NE_=%d" % self.ne, "NI_=%d" % self.ni, "NP_=%d" % self.np, "SC=" + self.sc, "UPD=%d" % self.upd,
                                     "REG=%d" % self.reg, "PRE=%d" % self.pre, "MODE=%d" % mode, 'NAME="%s"' % nm])

    def program(self, rng, pts):
        base = self.nx + self.np
        prog = tame(rng, base, [p for p in pts], rng.randint(5, 11))
        n = base + len(prog)
        out = lambda: rng.choice([n, rng.randint(max(1, n - 4), n), rng.randint(1, n)])
        # a convex part keeps some of the problems easy
        cost = n
        if rng.random() < 0.6:
            acc = None
            for i in range(1, self.nx + 1):
                prog.append(("subc", i, 0, round(rng.uniform(-1, 1), 2)))
                prog.append(("sq", base + len(prog), 0, 0.0))
                if acc:
                    prog.append(("add", acc, base + len(prog), 0.0))
                acc = base + len(prog)
            prog.append(("mulc", rng.randint(self.nx + 1, n), 0, 0.1))
            prog.append(("add", acc, base + len(prog), 0.0))
            cost = base + len(prog)
        return "%s %d %s" % (gen_prog.tokens(prog), cost, " ".join(str(out()) for _ in range(self.ne + self.ni)))


class Ocp:
    kind = "ocp"

    def __init__(self, X, U, P, D, G, N, S, sc="double", upd=0, reg=0, pre=0, fmt=0, heap=0):
        self.__dict__.update(X=X, U=U, P=P, D=D, G=G, N=N, S=S, sc=sc, upd=upd, reg=reg, pre=pre, fmt=fmt, heap=heap)   # heap: matrices of so many bytes are too large for the stack
        self.nodes = N * S + 1
        self.nv, self.nq = (X + U) * self.nodes + P, D
        self.ne, self.ni = X * self.nodes, G * self.nodes

    def unit(self, mode):
        nm = "sqp_o%d%d%d%d%d%d%d%s_%d%d%d%d_%d%s" % (self.X, self.U, self.P, self.D, self.G, self.N, self.S, self.sc[0], self.fmt, self.upd, self.reg, self.pre, mode, "h" if self.heap else "")
        return nm, ("sqp_unit.cpp", ["OCP_=1", "CLS=Class_" + nm, "X_=%d" % self.X, "U_=%d" % self.U, "P_=%d" % self.P, "D_=%d" % self.D, "G_=%d" % self.G, "ORD=%d" % self.N, "SEG=%d" % self.S, "FMT=%d" % self.fmt,
                                     "SC=" + self.sc, "UPD=%d" % self.upd, "REG=%d" % self.reg, "PRE=%d" % self.pre, "MODE=%d" % mode, 'NAME="%s"' % nm] + (["EIGEN_STACK_ALLOCATION_LIMIT=%d" % self.heap] if self.heap else []))

    def program(self, rng, pts):
        base = self.X + self.U + self.P + self.D + 1
        regs = [[rng.uniform(-1, 1) for _ in range(base)] for _ in range(3)]
        prog = tame(rng, base, regs, rng.randint(4, 8))
        n = base + len(prog)
        acc = None
        for i in range(1, self.X + self.U + 1):
            prog.append(("sq", i, 0, 0.0))
            if acc:
                prog.append(("add", acc, base + len(prog), 0.0))
            acc = base + len(prog)
        out = lambda: rng.choice([n, rng.randint(max(1, n - 4), n), rng.randint(1, n)])
        return "%s %s %d %d" % (gen_prog.tokens(prog), " ".join(str(out()) for _ in range(self.X + self.G)), rng.choice([acc, acc, out()]), rng.choice([acc, out()]))


def tame(rng, base, regs, length):
    """at most two products, so that values stay moderate far away as well"""
    for _ in range(200):
        p = gen_prog.program(rng, base, regs, length, TAME, big=12.0)
        if len(p) == length and sum(o in ("mul", "sq", "acc") for o, *_ in p) <= 2:
            return p
    return gen_prog.program(rng, base, regs, length, ["neg", "addc", "csub", "mulc", "add", "sub", "sin", "cos", "tanh"], big=12.0)


def bounds(rng, n, loose, width=2.0):
    lo, up = [], []
    for _ in range(n):
        k = rng.random()
        a, b = sorted([round(rng.uniform(-width, width), 3), round(rng.uniform(-width, width), 3)])
        if k < loose:
            a, b = -INF, INF
        elif k < loose + 0.15:
            a = -INF
        elif k < loose + 0.3:
            b = INF
        elif k < loose + 0.36:
            b = a
        lo.append(a)
        up.append(b)
    return lo, up


def num(rng, w=1.5):
    return rng.choice([0.0, 1.0, round(rng.uniform(-w, w), 3), round(rng.uniform(-w, w), 3)])


def scenario(rng, sh, flt, c):
    nv, nc = sh.nv, sh.ne + sh.ni
    nl = nv + nc
    x0 = [num(rng) for _ in range(nv)]
    q = [num(rng) for _ in range(sh.nq)]
    pts = [x0 + q] + [[num(rng) for _ in range(nv + sh.nq)] for _ in range(3)]
    prog = sh.program(rng, pts)
    loose = rng.choice([1.0, 0.6, 0.3])
    lx, ux = bounds(rng, nv, max(loose, 0.5) if sh.kind == "ocp" else loose)
    lg, ug = bounds(rng, sh.ni, 0.2)
    eps = rng.choice([1e-3, 1e-2, 0.1, 0.5, 2.0, 1e-6 if not flt else 1e-2])
    epd = rng.choice([eps, eps, 1e-3, 10.0, 0.1])
    mx = rng.choice([1, 2, 3, 5, 6, 9] if sh.kind == "nlp" else [1, 2, 3, 4])
    if sh.kind == "nlp" and nv <= 4 and rng.random() < 0.06:
        mx = rng.choice([25, 45])
    ls = rng.choice([100, 2, 3, 5, 1, 8, 12]) if sh.kind == "nlp" else rng.choice([6, 2, 3, 5])
    tau = rng.choice([0.5, 0.5, 0.75, 0.3])
    eta = rng.choice([0.25, 0.25, 0.05, 0.9])
    lam = [num(rng) if rng.random() < 0.6 else 0.0 for _ in range(nl)]
    ans = []
    for k in range(rng.randint(1, 5)):
        if rng.random() < c.get("real", 0.4):
            ans.append("r %d 1.0" % rng.randint(1, 90))
        else:
            w = rng.choice([1.0, 0.1, 2.5, 1e-3])
            wl = rng.choice([1.0, 0.1, 3.0, 1e-3])
            p = [round(rng.uniform(-w, w), 5) if rng.random() < 0.9 else 0.0 for _ in range(nv)]
            y = [round(rng.uniform(-wl, wl), 5) if rng.random() < 0.8 else 0.0 for _ in range(nl)]
            if rng.random() < 0.06:
                p = [0.0] * nv
            if rng.random() < 0.06:
                y = [0.0] * nl
            ans.append("s %d %r %s %s" % (rng.randint(1, 90), rng.choice([0.3, 0.05, 1.0]), fl(p), fl(y)))
    sc = ""
    if sh.pre == 1:
        sc = fl([2.0 ** rng.randint(-3, 3) for _ in range(nv + nc + 1)])
    t0, tf = rng.choice([(0.0, 1.0), (0.0, 2.0), (-1.5, 0.75), (3.25, 4.0)])
    its = []
    for a in ans:
        its.append(int(a.split()[1]))
    line = "%s %r %r %r %s %s %s %s %s %s %s %s %s %r %d %s %d %d" % (
        prog, rng.choice([0.5, 2.0]), t0, tf, fl(lx), fl(ux), fl(lg), fl(ug), fl(q), "%r %r %r %r %d %d" % (tau, eta, eps, epd, mx, ls), sc, fl(x0), fl(lam), 3.0, len(ans), " ".join(ans),
        rng.randint(0, 1), rng.randint(0, 1))
    return line, its


SHAPES = [Nlp(3, 1, 1, 1), Nlp(2, 0, 2, 0, pre=1), Nlp(2, 1, 0, 0, upd=1, reg=1), Nlp(1, 0, 0, 2), Nlp(4, 2, 2, 0, pre=2), Nlp(3, 1, 2, 0, "float"), Nlp(8, 3, 5, 1),
          Ocp(2, 1, 1, 1, 1, 2, 2), Ocp(2, 1, 1, 1, 1, 2, 2, upd=1, reg=1, fmt=1, pre=1), Ocp(1, 2, 0, 0, 2, 3, 1, upd=2, reg=1, fmt=1), Ocp(2, 1, 0, 0, 0, 2, 2, upd=2, fmt=1, pre=2), Ocp(2, 1, 1, 1, 1, 2, 1, heap=512)]
DEEP = [Nlp(5, 2, 1, 1), Nlp(3, 0, 3, 0, reg=1), Nlp(2, 2, 2, 1, pre=1, upd=1), Nlp(6, 0, 0, 0), Nlp(2, 1, 1, 0, "float", pre=1), Ocp(3, 1, 2, 0, 1, 3, 1, pre=1, reg=1), Ocp(1, 1, 1, 0, 0, 2, 3, upd=1, fmt=0),
        Ocp(2, 2, 1, 2, 1, 1, 2, upd=2, fmt=1, reg=1, pre=1), Ocp(2, 1, 0, 0, 1, 2, 1, "float")]


def run(c, asp, per, cfg, corrupt):
    rng = c.rng
    c.assumptions += ["Num.java computes the numerals of the specification correctly to 40 digits",
                      "the recording QP solver and preconditioner of the harness report what they are given; comparisons are within a forward error bound"]
    c.model("MCSqp", "MCSqpQuick" if c.quick else "MCSqp", workers=8, timeout=850)
    shapes = SHAPES if c.quick else SHAPES + DEEP
    us = [s.unit(0) for s in shapes]
    exe = build([u for _, u in us])
    c.log("built %d solver variants" % len(us))
    sc, meta = [], {}
    for sh, (nm, _) in zip(shapes, us):
        n = per if sh.kind == "nlp" else max(1, per // 4)
        for i in range(n):
            line, its = scenario(rng, sh, sh.sc == "float", cfg)
            sid = "%s-%d" % (nm, i)
            meta[sid] = (sh, its)
            sc.append((sid, nm + " " + line))
    out = c.run_harness(exe, sc)
    recs = []
    for s, v in out.items():
        sh, its = meta[s]
        v["u"] = "2e-12" if sh.sc == "double" else "1e-3"
        v["asp"] = asp
        v["qit"] = sum(its[min(k, len(its) - 1)] for k in range(len(v["ev"])))
        recs.append(v)
    rej = c.validate("SqpTrace", recs)
    fin = {}
    for r in recs:
        fin[r["out"]["status"]] = fin.get(r["out"]["status"], 0) + 1
    c.notes.append("outcomes: %s; iterations recorded: %d" % (fin, sum(len(r["ev"]) for r in recs)))
    c.log("validated %d solves (%d iterations, %s), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), fin, len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["iterations"] = sum(len(r["ev"]) for r in recs)
    if sc:
        c.samples.append({"scenario": sc[0][1][:500]})
    good = [r for r in recs if r["id"] not in rej and meta[r["id"]][0].sc == "double"]
    if good and not rej:
        c.self_test("SqpTrace", [g for g in good if len(g["ev"]) > 1 and g["out"]["iter"] > 0][:15], corrupt)


def bump(v):
    return [bump(v[0])] + v[1:] if isinstance(v, list) else repr(float(v) + 0.05 + 0.1 * abs(float(v))) if "inf" not in v else "7.0"


def s01(c):
    def corrupt(r, i):
        o = r["out"]
        k = ["pn", "dn", "viol", "iter", "qit", "status", "cost"][i % 7]
        o[k] = bump(o[k]) if isinstance(o[k], str) and k != "status" else o[k] + 1 if k != "status" else ("MAX_ITER" if o[k] == "SOLVED" else "SOLVED")
        return r
    run(c, "end", 40 if c.quick else 500, dict(real=0.6), corrupt)


def s02(c):
    def corrupt(r, i):
        q = r["ev"][0]["qp"]
        k = ["h", "A", "lx", "ux", "al", "H"][i % 6]
        if not q[k]:
            k = "h"
        q[k] = bump(q[k])
        return r
    run(c, "qp", 30 if c.quick else 400, dict(real=0.4), corrupt)


def s03(c):
    def corrupt(r, i):
        e = r["ev"][1]
        k = "lam" if i % 2 else "x"
        e[k] = [repr(float(v) + 0.3) for v in e[k]]
        return r
    run(c, "step", 36 if c.quick else 400, dict(real=0.3), corrupt)


# ---------------------------------------------------------------- quasi-Newton updates
def spd(rng, n, flt):
    k = rng.random()
    if k < 0.15:
        return [[float(i == j) for j in range(n)] for i in range(n)]
    if k < 0.2:
        return [[0.0] * n for _ in range(n)]
    w = rng.choice([1.0, 1.0, 0.1, 30.0] if flt else [1.0, 1.0, 1e-3, 50.0])
    a = [[round(rng.uniform(-1, 1), 3) for _ in range(n)] for _ in range(n)]
    d = 0.0 if k < 0.25 else rng.choice([1.0, 0.1, 3.0])
    m = [[sum(a[i][q] * a[j][q] for q in range(n)) + (d if i == j else 0.0) for j in range(n)] for i in range(n)]
    if k > 0.9:
        m[0][0] -= 2.0     # possibly indefinite
    m = [[w * (m[i][j] if i <= j else m[j][i]) for j in range(n)] for i in range(n)]
    if flt:
        import struct
        m = [[struct.unpack("f", struct.pack("f", v))[0] for v in r] for r in m]
    return m


def s04(c):
    rng = c.rng
    c.assumptions += ["Num.java computes the numerals of the specification correctly to 40 digits", "comparisons are within a forward error bound; where the bound is as large as the update itself only the weaker conditions are compared"]
    for k in ["B", "S", "Q"] + ([] if c.quick else ["BFull", "SFull", "BDeep", "SDeep", "B3", "QFull"]):
        c.model("MCQuasiNewton", "MCQuasiNewton" + k, workers=8, timeout=400)
    combos = [(2, "double", 0), (3, "double", 1), (4, "double", 2), (1, "double", 0), (3, "float", 0), (2, "double", 1), (5, "double", 3), (8, "double", 0)]
    if not c.quick:
        combos += [(5, "double", 0), (6, "double", 1), (9, "double", 1), (4, "float", 1), (2, "float", 2), (3, "double", 2)]
    us = []
    for n, sc, kd in combos:
        nm = "qn_%d_%s_%d" % (n, sc[0], kd)
        us.append((nm, ("qn_unit.cpp", ["N_=%d" % n, "SC=" + sc, "KIND=%d" % kd, 'NAME="%s"' % nm] + (["EIGEN_STACK_ALLOCATION_LIMIT=%d" % (8 * n * n)] if kd == 3 else []))))
    exe = build([u for _, u in us])
    c.log("built %d variants" % len(us))
    scn, meta = [], {}
    for (n, S, kd), (nm, _) in zip(combos, us):
        for i in range(60 if c.quick else 600):
            H = spd(rng, n, S == "float")
            dyadic = rng.random() < 0.25
            if dyadic:      # small integers, mostly indefinite: products and curvatures are exact
                H = [[float(rng.randint(-3, 3)) for _ in range(n)] for _ in range(n)]
                H = [[H[min(a, b)][max(a, b)] for b in range(n)] for a in range(n)]
            B = [r[:] for r in H]      # the matrix the sequence is aimed at
            tgt = spd(rng, n, False)
            only = rng.choice([None, "bfgs", "sr1"])
            ev = []
            for _ in range(rng.randint(1, 7)):
                w = rng.choice([1.0, 1.0, 1e-2, 10.0, 1e-5 if S == "double" else 1e-2, 1e-9 if S == "double" else 1.0])
                s = [round(rng.uniform(-1, 1), 3) * w if rng.random() < 0.85 else 0.0 for _ in range(n)]
                if rng.random() < 0.06:
                    s = [0.0] * n
                if dyadic:
                    s = [float(rng.randint(-2, 2)) for _ in range(n)]
                k = rng.random()
                op = only or rng.choice(["bfgs", "sr1"])
                Bs = [sum(B[a][b] * s[b] for b in range(n)) for a in range(n)]
                ss = sum(v * v for v in s)
                if not ev and n > 1 and op == "sr1" and ss > 0 and rng.random() < 0.6:
                    # a residual nearly orthogonal to the step, around the safeguard
                    q = [rng.uniform(-1, 1) for _ in range(n)]
                    a = sum(x * z for x, z in zip(q, s)) / ss
                    q = [x - a * z for x, z in zip(q, s)]
                    qn = math.sqrt(sum(x * x for x in q))
                    f = 10.0 ** rng.uniform(-8, -2) * qn / math.sqrt(ss)
                    y = [v + x + f * z for v, x, z in zip(Bs, q, s)]
                elif dyadic and k < 0.7:
                    y = [rng.choice([1.0, 1.0, 0.25, -1.0, 2.0]) * v for v in Bs]
                elif k < 0.3:
                    y = [sum(tgt[a][b] * s[b] for b in range(n)) for a in range(n)]
                elif k < 0.45:
                    y = [rng.choice([0.2, 0.1, 0.25, -1.0, 0.9, 1.0]) * v for v in Bs]
                elif k < 0.55:
                    y = [-v * rng.choice([1.0, 0.01, 3.0]) for v in s]
                elif k < 0.6:
                    y = [0.0] * n
                else:
                    wy = rng.choice([w, 1.0, 0.1, 5.0])
                    y = [round(rng.uniform(-1, 1), 3) * wy for _ in range(n)]
                ev.append("%s %s %s" % (op, fl(s), fl(y)))
            sid = "%s-%d" % (nm, i)
            meta[sid] = S
            scn.append((sid, "%s %s %d %s" % (nm, fl(v for r in H for v in r), len(ev), " ".join(ev))))
    out = c.run_harness(exe, scn)
    recs = [dict(v, u="4e-16" if meta[s] == "double" else "3e-7") for s, v in out.items()]
    rej = c.validate("QuasiNewtonTrace", recs)
    c.log("validated %d sequences (%d updates), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.extra["updates"] = sum(len(r["ev"]) for r in recs)
    c.report(rej, recs, dict(scn))
    c.samples.append({"scenario": scn[0][1]})

    def corrupt(r, i):
        e = r["ev"][0]
        s = max(abs(float(v)) for row in e["H1"] for v in row)
        e["H1"][0][0] = repr(float(e["H1"][0][0]) + 0.2 * s + 0.1)
        r["ev"] = [e]
        return r
    good = [r for r in recs if r["id"] not in rej and meta[r["id"]] == "double" and r["ev"][0]["H0"] != r["ev"][0]["H1"] and max(abs(float(v)) for row in r["ev"][0]["H1"] for v in row) < 100]
    if good and not rej:
        c.self_test("QuasiNewtonTrace", good[:15], corrupt)


# ---------------------------------------------------------------- line-search filter
def s05(c):
    rng = c.rng
    mc = c.model("MCFilter", "MCFilterHist", workers=8, timeout=300)
    hists = sorted(set(l.strip().strip('"')[5:].replace("\\", "") for l in mc.out.splitlines() if "HIST " in l))
    hists = [json.loads(h) for h in hists]
    c.extra["histories_enumerated"] = len(hists)
    if not c.quick:
        c.model("MCFilter", "MCFilterDeep", workers=8, timeout=600)
        c.model("MCFilter", "MCFilterWide", workers=8, timeout=600)
    us = [("filter_d", ("filter_unit.cpp", ["SC=double", 'NAME="filter_d"'])), ("filter_f", ("filter_unit.cpp", ["SC=float", 'NAME="filter_f"']))]
    exe = build([u for _, u in us])
    sc = []

    def add(nm, sid, cap, beta, ops, extra):
        pts = [(f, v) for o, f, v in ops if o == "add"]
        b = 1e-5 if beta < 0 else beta
        q = pts[:6] + extra
        for f, v in pts[:4]:
            if b in (0.0, 0.125, 0.5):     # exactly representable: the boundary itself
                q += [(f - b * v, v - b * v), (f - b * v - 2.0 ** -12, v), (f, v - b * v - 2.0 ** -12)]
            else:
                q += [(f - 2 * b * v - 0.01, v), (f, v - 3 * b * v - 0.01)]
        sc.append((sid, "%s %d %r %d %s %d %s" % (nm, cap, beta, len(q), " ".join("%r %r" % x for x in q), len(ops), " ".join(o if o != "add" else "add %r %r" % (f, v) for o, f, v in ops))))
    grid = [(float(i), float(j)) for i in range(-1, 4) for j in range(4)]
    hs = rng.sample(hists, min(len(hists), 1200 if c.quick else 11000))
    for i, h in enumerate(hs):
        ops = [(e[0], float(e[1]), float(e[2])) if e[0] == "add" else (e[0], 0, 0) for e in h]
        add(rng.choice(us)[0], "enum-%d" % i, rng.choice([1, 2, 2, 3]), rng.choice([0.125, 0.0, -1.0]), ops, rng.sample(grid, 3))
    for i in range(250 if c.quick else 4000):
        cap = rng.choice([0, 0, 1, 2, 3, 5, 10, 12])
        n = rng.randint(3, 14 if cap in (1, 2, 3) else 40)
        ops, sz = [], 0
        w = rng.choice([1.0, 0.25, 64.0])
        mode = rng.choice(["any", "chain", "improve"])
        for k in range(n):
            r = rng.random()
            if r < 0.03:
                ops.append(("clear", 0, 0))
                sz = 0
            elif r < 0.06 and ops and ops[-1][0] == "add":
                ops.append(("remove", 0, 0))
            else:
                f, v = rng.randint(-8, 12), rng.randint(0, 12)
                if mode == "chain" and rng.random() < 0.85:       # mutually non-dominated points fill the filter
                    f = rng.randint(-8, 12)
                    v = 12 - (f + 8) * 12.0 / 20 // 0.25 * 0.25
                if mode == "improve":
                    f, v = f - k * rng.choice([0, 1]), max(0, v - k // 2)
                ops.append(("add", f * w, v * w))
        beta = rng.choice([-1.0, -1.0, 0.0, 0.125, 0.5])
        add(rng.choice(us)[0], "rand-%d" % i, cap, beta, ops, [(rng.randint(-9, 13) * w, rng.randint(-1, 13) * w) for _ in range(5)])
    out = c.run_harness(exe, sc)
    recs = list(out.values())
    rej = c.validate("FilterTrace", recs)
    c.log("validated %d histories (%d operations), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(r["ev"]) for r in recs)
    c.samples.append({"scenario": sc[-1][1]})
    c.assumptions += ["numbers of the histories are exactly representable, so the boundary of the margin is compared exactly"]

    def corrupt(r, i):
        e = r["ev"][-1]
        if i % 2:
            e["E"] = e["E2"] = e["E"][1:] + [["77.5", "78.5"]]
        else:
            e["acc"][i % len(e["acc"])] = not e["acc"][i % len(e["acc"])]
        return r
    if not rej:
        c.self_test("FilterTrace", recs[-10:], corrupt)


# ---------------------------------------------------------------- histories of solves
HSHAPES = [Nlp(3, 1, 2, 1, reg=1), Nlp(2, 0, 1, 0, upd=1, reg=1), Nlp(3, 1, 0, 1, "float", reg=1), Ocp(2, 1, 1, 1, 1, 2, 2, reg=1), Ocp(2, 1, 0, 1, 1, 2, 2, upd=2, fmt=1, reg=1), Ocp(1, 1, 1, 1, 0, 3, 2, upd=2, reg=1, fmt=1),
           Ocp(1, 2, 0, 0, 1, 2, 1, upd=1, reg=1, fmt=1)]
HDEEP = [Nlp(1, 0, 0, 1, reg=1), Nlp(4, 2, 2, 0, reg=1), Ocp(3, 1, 1, 0, 2, 2, 1, upd=2, fmt=1, reg=1), Ocp(2, 2, 0, 1, 0, 2, 2, upd=1, reg=1), Ocp(2, 1, 1, 1, 1, 3, 2, upd=2, fmt=1, reg=1), Ocp(1, 1, 0, 1, 1, 2, 3, "float", fmt=1, upd=2, reg=1)]


def s06(c):
    rng = c.rng
    mc = c.model("MCInstance", "MCInstanceSQP" if c.quick else "MCInstanceSQP4", workers=8, timeout=600)
    hists = sorted(json.loads(l.strip().strip('"')[5:]) for l in mc.out.splitlines() if "HIST " in l)
    c.extra["histories_enumerated"] = len(hists)
    shapes = HSHAPES if c.quick else HSHAPES + HDEEP
    us = [s.unit(1) for s in shapes]
    exe = build([u for _, u in us])
    c.log("built %d solver variants" % len(us))
    sc, meta = [], {}
    for sh, (nm, _) in zip(shapes, us):
        nv, nc = sh.nv, sh.ne + sh.ni
        flt = sh.sc == "float"
        for grp in range((4 if sh.kind == "nlp" else 2) if c.quick else (8 if sh.kind == "nlp" else 3)):
            data = []
            for k in range(3):
                lx, ux = bounds(rng, nv, 0.6)
                lg, ug = bounds(rng, sh.ni, 0.3)
                data.append((rng.choice([(0.0, 1.0), (0.0, 2.0), (-0.5, 0.25)]), lx, ux, lg, ug, [num(rng) for _ in range(sh.nq)], [num(rng) for _ in range(nv)], [num(rng) for _ in range(nv + nc)]))
            if rng.random() < 0.5:      # problem 2 differs from problem 1 in one part only
                k = rng.choice([0, 1, 5, 6, 7])
                d = list(data[0])
                d[k] = data[1][k]
                if k == 1:
                    d[2] = data[1][2]
                data[1] = tuple(d)
            pts = [d[6] + d[5] for d in data]
            prog = sh.program(rng, pts)
            var = []
            for k in range(2):
                var.append(("%r %r %r %r %d %d" % (rng.choice([0.5, 0.75]), rng.choice([0.25, 0.05]), rng.choice([1e-3, 1e-2]), rng.choice([1e-3, 1e-2, 0.5]), rng.choice([3, 6, 10] if sh.kind == "nlp" else [2, 3, 5]), rng.choice([10, 5, 3])),
                            "%d %d %r %d" % (rng.choice([50, 200] if sh.kind == "nlp" else [50, 100]), rng.choice([1, 5, 10]), 1e-3 if flt else rng.choice([1e-4, 1e-3]), rng.randint(0, 1))))
            per = (30 if sh.kind == "nlp" else 12) if c.quick else (150 if sh.kind == "nlp" else 60)
            for i, h in enumerate(rng.sample(hists, min(per, len(hists)))):
                keys, parts = [], []
                for j, (p, v, _) in enumerate(h):
                    (t, lx, ux, lg, ug, q, x0, l0) = data[p - 1]
                    # variant 3 continues from wherever the solver stands
                    st, qs = var[(v - 1) % 2]
                    start = "c" if v == 3 and j > 0 else "ga"[v % 2]
                    keys.append("p%dv%d%s" % (p, v, "c%d" % j if start == "c" else ""))
                    parts.append("%s %r %r %s %s %s %s %s %s %s %s" % (start, t[0], t[1], fl(lx), fl(ux), fl(lg), fl(ug), fl(q), st, qs, "" if start == "c" else fl(x0) + " " + fl(l0)))
                sid = "%s-%d-%d" % (nm, grp, i)
                meta[sid] = (keys, flt)
                sc.append((sid, "%s %s %r %d %s" % (nm, prog, rng.choice([2.0, 4.0]), len(h), " ".join(parts))))
    out = c.run_harness(exe, sc)
    c.log("replayed %d histories" % len(out))
    recs, fin, left = [], {}, 0
    for s, o in out.items():
        keys, flt = meta[s]
        # solves that rounding carries far apart say nothing about the history
        vals = lambda e: [float(v) for v in e["x"] + e["lam"] + [e["pn"], e["dn"], e["viol"], e["cost"]]]
        far = lambda a, b: a != b and not abs(a - b) <= (1e-3 if flt else 1e-8) * (1 + max(abs(a), abs(b)))
        if any([a[k] for k in ("status", "iter", "qit")] != [b[k] for k in ("status", "iter", "qit")] or any(far(u, v) for u, v in zip(vals(a), vals(b))) for a, b in zip(o["fresh"], o["shaken"])):
            left += 1
            continue
        ev = []
        for fresh, l in ((True, o["fresh"]), (False, o["ev"])):
            for k, e in zip(keys, l):
                fin[e["status"]] = fin.get(e["status"], 0) + 1
                ev.append(dict(key=k, fresh=fresh, d=[e["status"], str(e["iter"]), str(e["qit"])], x=e["x"] + e["lam"] + [e["pn"], e["dn"], e["viol"], e["cost"]]))
        recs.append(dict(id=s, ev=ev, tol="2e-2" if flt else "1e-6"))
    rej = c.validate("InstanceTrace", recs)
    c.notes.append("outcomes: %s; %d ill-conditioned histories left out" % (fin, left))
    c.log("left out %d ill-conditioned histories" % left)
    c.log("validated %d histories (%s), %d rejected" % (len(recs), fin, len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["solves"] = sum(len(r["ev"]) for r in recs)
    c.samples.append({"scenario": sc[0][1][:600], "keys": meta[sc[0][0]][0]})

    def corrupt(r, i):
        e = r["ev"][-1]
        if i % 2:
            e["x"][0] = repr(float(e["x"][0]) + 0.01 * (1 + max(abs(float(v)) for v in e["x"])))
        else:
            e["d"][1] = str(int(e["d"][1]) + 1)
        return r
    good = [r for r in recs if all(math.isfinite(float(v)) for v in r["ev"][-1]["x"])]
    if not rej and good:
        c.self_test("InstanceTrace", good[:6], corrupt)
