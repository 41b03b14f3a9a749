"""Checks of the MPC interface (M01..M03)."""
import json, math
from vlib import build
import gen_prog
from c_ocp import Shape

INF = float("inf")
fl = lambda v: " ".join("inf" if x == INF else "-inf" if x == -INF else repr(x) for x in v)
# operation: length of each argument
ARGS = {"x0": ["X"], "x0b": ["X", "X"], "xlb": ["X"], "xub": ["X"], "xb": ["X", "X"], "xtb": ["XT", "XT"], "xflb": ["X"], "xfub": ["X"], "xfb": ["X", "X"], "ulb": ["U"], "uub": ["U"], "ub": ["U", "U"],
        "utb": ["UT", "UT"], "gb": ["G", "G"], "gtb": ["GT", "GT"], "pb": ["P", "P"], "d": ["D"], "xg": ["XT"], "ug": ["UT"], "pg": ["P"], "lg": ["L"]}


class Mshape(Shape):
    def mname(self, fmt):
        return "mpc" + self.name(fmt)[3:]

    def munit(self, fmt):
        f, d = self.unit(fmt)
        nm = self.mname(fmt)
        return ("mpc_unit.cpp", ["CLS=Mpc_" + nm] + [x for x in d if not x.startswith(("CLS=", "NAME=", "LEVEL="))] + ['NAME="%s"' % nm])

    def size(self, k):
        return {"X": self.nx, "U": self.nu, "XT": self.nx * self.nodes, "UT": self.nu * self.nodes, "G": self.ng, "GT": self.ng * self.nodes, "P": self.np, "D": self.nd, "L": self.nl}[k]

    def offers(self):
        return [o for o in ARGS if not (o in ("gb", "gtb") and not self.ng or o in ("pb", "pg") and not self.np or o == "d" and not self.nd)]


QUICK = [(Mshape(2, 3, 1, 2, 1, 2, 2, heap=3072), 0), (Mshape(1, 1, 0, 0, 0, 3, 1), 0), (Mshape(3, 1, 2, 1, 2, 1, 3), 1), (Mshape(2, 1, 1, 1, 0, 3, 2, "float"), 0), (Mshape(2, 2, 0, 1, 1, 4, 2), 1)]
BIG = [(Mshape(2, 1, 1, 0, 1, 5, 4), 1)]
DEEP = [(Mshape(1, 3, 2, 0, 3, 2, 3), 0), (Mshape(4, 1, 1, 3, 1, 2, 2), 1), (Mshape(2, 1, 3, 1, 0, 6, 1), 0), (Mshape(1, 2, 1, 1, 1, 3, 4, "float"), 0), (Mshape(3, 3, 0, 0, 1, 5, 2), 0), (Mshape(2, 2, 2, 2, 2, 2, 2), 0)]
TIMES = [(0.0, 1.0), (0.0, 2.0), (-1.5, 0.75), (3.25, 4.0), (0.5, 5.5), (10.0, 10.5), (-0.25, 0.25), (100.0, 104.0)]


def problem(rng, sh):
    """A tame problem: stable linear dynamics with a small nonlinear term, convex cost, smooth path constraints."""
    ins = []
    base = sh.nx + sh.nu + sh.np + sh.nd + 1

    def add(o, a=0, b=0, c=0.0):
        ins.append((o, a, b, c))
        return base + len(ins)
    X = list(range(1, sh.nx + 1))
    U = list(range(sh.nx + 1, sh.nx + sh.nu + 1))
    P = list(range(sh.nx + sh.nu + 1, sh.nx + sh.nu + sh.np + 1))
    Dd = list(range(base - sh.nd, base))
    T = base

    def lin(regs, lo=-1.0, hi=1.0):
        s = None
        for r in regs:
            v = add("mulc", r, 0, round(rng.uniform(lo, hi), 3) or 0.5)
            s = v if s is None else add("add", s, v)
        return s
    f = []
    for i in range(sh.nx):
        s = lin(X, -0.6, 0.3)
        s = add("add", s, add("mulc", U[i % sh.nu], 0, rng.choice([1.0, 0.7, -1.2])))
        if P and rng.random() < 0.5:
            s = add("add", s, add("mulc", rng.choice(P), 0, 0.3))
        if Dd and rng.random() < 0.6:
            s = add("add", s, add("mulc", rng.choice(Dd), 0, 0.3))
        if rng.random() < 0.5:
            s = add("add", s, add("mulc", add("sin", rng.choice(X)), 0, 0.25))
        if rng.random() < 0.3:
            s = add("add", s, add("mulc", add("sin", T), 0, 0.2))
        f.append(s)
    g = []
    for i in range(sh.ng):
        s = add("add", rng.choice(X), add("mulc", rng.choice(U), 0, 0.5))
        if rng.random() < 0.4:
            s = add("add", s, add("mulc", add("sq", rng.choice(X)), 0, 0.2))
        g.append(s)

    def quad():
        s = None
        for r in X + U + P:
            v = add("mulc", add("sq", add("subc", r, 0, rng.choice([0.0, 0.5, -0.3]))), 0, rng.choice([1.0, 0.5, 2.0]))
            s = v if s is None else add("add", s, v)
        return s
    lag = quad() if sh.lag else 0
    may = quad() if sh.may else 0
    return "%s %s" % (gen_prog.tokens(ins), " ".join(map(str, f + g + [lag, may])))


def head(rng, sh, max_iter=1, qp_iter=20, eps=1e-3, qeps=1e-3, reg=1.0, deps=None):
    return "%s %r %d %d %r %r %d %r" % (problem(rng, sh), reg, max_iter, 10, eps, eps if deps is None else deps, qp_iter, qeps)


def build_all(c, shapes):
    c.assumptions += ["the inner solver is the library's own box ADMM with a factorisation that never reports failure"]
    exe = build([s.munit(f) for s, f in shapes])
    c.log("built %d controllers" % len(shapes))
    return exe


def decide(c, exe, sc, meta, asp, corrupt):
    out = c.run_harness(exe, sc)
    recs = []
    for s, v in out.items():
        v["asp"], v["u"] = asp, "2e-14" if meta[s].sc == "double" else "1e-5"
        if asp == "adm":
            v["u"] = "1e-13" if meta[s].sc == "double" else "5e-5"
        recs.append(v)
    rej = c.validate("MpcTrace", recs)
    c.log("validated %d histories (%d events), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(r["ev"]) for r in recs)
    ops = {}
    for r in recs:
        for e in r["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    c.extra["operations"] = ops
    c.samples.append({"scenario": sc[-1][1][:500]})
    if not rej and corrupt:
        c.self_test("MpcTrace", [r for r in recs if meta[r["id"]].sc == "double"][:12], corrupt)
    return recs


class Values:
    """Distinct numbers, exactly representable in single precision."""

    def __init__(self, rng):
        self.rng, self.k = rng, rng.randrange(1, 500)

    def vec(self, n, inf=0.0, sign=1):
        r = []
        for _ in range(n):
            self.k += 1
            r.append(sign * INF if self.rng.random() < inf else self.k / 64.0)
        return r


def call(v, sh, op):
    if op == "t":
        a, b = v.rng.choice(TIMES)
        return "t %r %r" % (a, b)
    if op == "solve":
        return "solve"
    bound = op not in ("d", "xg", "ug", "pg", "lg", "x0")
    out = []
    for i, k in enumerate(ARGS[op]):
        sign = 1 if i == 1 or op in ("xub", "xfub", "uub") else -1
        out.append(fl(v.vec(sh.size(k), 0.1 if bound else 0.0, sign)))
    return op + " " + " ".join(out)


def m01(c):
    rng = c.rng
    hists = []
    for cfg in (["MCMpcQuick"] if c.quick else ["MCMpcQuick", "MCMpc", "MCMpc2", "MCMpc3"]):
        mc = c.model("MCMpc", cfg, workers=8, timeout=300)
        if cfg in ("MCMpcQuick", "MCMpc"):
            hists += [json.loads(l.strip().strip('"')[5:].replace('\\"', '"')) for l in mc.out.splitlines() if "HIST " in l]
    c.extra["histories_enumerated"] = len(hists)
    shapes = QUICK + BIG if c.quick else QUICK + BIG + DEEP
    exe = build_all(c, shapes)
    sc, meta = [], {}

    def add(sh, f, sid, ops):
        v = Values(rng)
        meta[sid] = sh
        sc.append((sid, "%s %s %d %s" % (sh.mname(f), head(rng, sh, qp_iter=rng.choice([5, 20])), len(ops), " ".join(call(v, sh, o) for o in ops))))
    hists = sorted(hists)
    for i, h in enumerate(hists if len(hists) <= 3000 else rng.sample(hists, 3000)):
        add(shapes[0][0], shapes[0][1], "enum-%d" % i, h)
    for sh, f in shapes:
        for i in range((60 if c.quick else 300) // (1 if sh.nv < 60 else 6)):
            n = rng.randint(4, 16)
            ok = sh.offers() + ["t", "solve"]
            add(sh, f, "%s-%d" % (sh.mname(f), i), [rng.choice(ok) for _ in range(n)])

    def corrupt(r, i):
        e = r["ev"][-1]
        k = ["lx", "ux", "d", "z", "lx"][i % 5]
        for k in [k, "lx"]:
            if e["st"][k]:
                j = i % len(e["st"][k])
                e["st"][k][j] = "77.25"
                break
        if e["op"] == "solve" and k == "z":
            e["st"]["ux"][0] = "77.25"
        return r
    decide(c, exe, sc, meta, "set", corrupt)


def queries(rng, sh, lim, n=3):
    t0, tf = lim
    h = (tf - t0) / sh.S
    q = [t0, tf] + [t0 + s * h for s in range(1, sh.S)] + [t0 + rng.random() * (tf - t0) for _ in range(n)] + [rng.choice(sh.times(t0, tf)) for _ in range(2)]
    q = [min(max(x, t0), tf) for x in q]
    rng.shuffle(q)
    if sh.sc == "float":
        q = [min(max(round(x * 256) / 256, t0), tf) for x in q]
    return q


def m02(c):
    rng = c.rng
    c.model("MCMpcTime", "MCMpcTimeQuick" if c.quick else "MCMpcTime", workers=8, timeout=300)
    shapes = QUICK + BIG if c.quick else QUICK + BIG + DEEP
    exe = build_all(c, shapes)
    sc, meta = [], {}
    for sh, f in shapes:
        for i in range((60 if c.quick else 300) // (1 if sh.nv < 60 else 6)):
            v = lambda n: [round(rng.uniform(-2, 2), 3) for _ in range(n)]
            lim, ops = (0.0, 1.0), []
            for k in range(rng.randint(2, 6)):
                r = rng.random()
                if r < 0.45 or k == 0 and r < 0.7:
                    lim = rng.choice(TIMES)
                    ops.append("t %r %r" % lim)
                if rng.random() < 0.8:
                    ops += ["xg " + fl(v(sh.size("XT"))), "ug " + fl(v(sh.size("UT")))]
                    if sh.np:
                        ops.append("pg " + fl(v(sh.np)))
                    if rng.random() < 0.5:
                        ops.append("lg " + fl(v(sh.nl)))
                if rng.random() < 0.25:
                    ops += ["x0 " + fl(v(sh.nx)), "solve"]
                if rng.random() < 0.2:
                    ops.append("loop %r" % rng.choice(queries(rng, sh, lim)))
                q = queries(rng, sh, lim)
                ops.append("read %d %s" % (len(q), fl(q)))
            sid = "%s-%d" % (sh.mname(f), i)
            meta[sid] = sh
            sc.append((sid, "%s %s %d %s" % (sh.mname(f), head(rng, sh), len(ops), " ".join(ops))))

    def corrupt(r, i):
        for e in reversed(r["ev"]):
            if e["op"] == "read":
                k = ["xa", "ua", "xr", "xn", "dual", "un"][i % 6]
                if k == "dual":
                    e[k][0] = "77.25"
                else:
                    e[k][i % len(e[k])][0] = "77.25"
                return r
    decide(c, exe, sc, meta, "read", corrupt)


def closed_loop(rng, sh, n):
    """Bounds a feasible trajectory can keep, then a sequence of solves with changing initial states, bounds, horizons and parameters."""
    lim = rng.choice(TIMES[:5] + [(10.0, 10.5)])
    ops = ["t %r %r" % lim] if lim != (0.0, 1.0) or rng.random() < 0.5 else []
    lim = lim if ops else (0.0, 1.0)
    num = lambda a, b: round(rng.uniform(a, b), 3)
    if sh.nd:
        ops.append("d " + fl([num(-0.5, 0.5) for _ in range(sh.nd)]))

    def xbounds():
        return "xb %s %s" % (fl([-num(1.5, 4) if rng.random() < 0.8 else -INF for _ in range(sh.nx)]), fl([num(1.5, 4) if rng.random() < 0.8 else INF for _ in range(sh.nx)]))

    def ubounds():
        return "ub %s %s" % (fl([-num(0.3, 2) if rng.random() < 0.8 else -INF for _ in range(sh.nu)]), fl([num(0.3, 2) if rng.random() < 0.8 else INF for _ in range(sh.nu)]))

    def one():
        r = rng.random()
        if r < 0.25:
            return xbounds()
        if r < 0.5:
            return ubounds()
        if r < 0.6:
            w = num(0.4, 2.0)
            return "xfb %s %s" % (fl([-w] * sh.nx), fl([w] * sh.nx))
        if r < 0.7 and sh.ng:
            return "gb %s %s" % (fl([-num(1, 4) if rng.random() < 0.7 else -INF for _ in range(sh.ng)]), fl([num(1, 4)] * sh.ng))
        if r < 0.8 and sh.np:
            k = rng.choice([0.0, num(0.1, 1)])
            return "pb %s %s" % (fl([0.25 - k] * sh.np), fl([0.25 + k] * sh.np))
        if r < 0.9 and sh.nd:
            return "d " + fl([num(-0.5, 0.5) for _ in range(sh.nd)])
        return None
    ops += [xbounds(), ubounds()]
    if sh.np:
        ops.append("pb %s %s" % (fl([-0.5] * sh.np), fl([0.5] * sh.np)))
    x0 = [num(-1.2, 1.2) for _ in range(sh.nx)]
    ops.append("x0 " + fl(x0))
    if rng.random() < 0.5:
        ops.append("xg " + fl(x0 * sh.nodes))
    ops.append("solve")
    for _ in range(n):
        r = rng.random()
        if r < 0.55:
            ops.append("loop %r" % (lim[0] + rng.choice([0.05, 0.25, 0.5, 1.0]) * (lim[1] - lim[0])))
        elif r < 0.75:
            ops.append("x0 " + fl([num(-1.2, 1.2) for _ in range(sh.nx)]))
        elif r < 0.85:
            w = num(0, 0.2)
            x = [num(-1, 1) for _ in range(sh.nx)]
            ops.append("x0b %s %s" % (fl([a - w for a in x]), fl([a + w for a in x])))
        if rng.random() < 0.3:
            o = one()
            if o:
                ops.append(o)
        if rng.random() < 0.15:
            lim = rng.choice(TIMES[:5])
            ops.append("t %r %r" % lim)
        ops.append("solve")
    return ops


def m03(c):
    rng = c.rng
    shapes = LOOPS if c.quick else LOOPS + LOOPS_DEEP
    exe = build_all(c, shapes)
    sc, meta = [], {}
    for sh, f in shapes:
        flt = sh.sc == "float"
        for i in range(40 if c.quick else 150):
            eps = rng.choice([1e-2, 3e-3]) if flt else rng.choice([1e-2, 1e-3, 1e-4])
            ops = closed_loop(rng, sh, rng.randint(2, 5))
            sid = "%s-%d" % (sh.mname(f), i)
            meta[sid] = sh
            qeps, qit, deps = eps / 10 if not flt else eps / 3, 400, eps
            if rng.random() < 0.5:      # an inner solver that gives up early leaves the decision to the outer tests
                qeps, qit, deps = rng.choice([(qeps, 5, 1e3), (qeps, 25, 1e3), (10 * eps, 400, 1e3), (1.0, 400, 1e3), (1e-1, 400, eps)])
            sc.append((sid, "%s %s %d %s" % (sh.mname(f), head(rng, sh, rng.choice([3, 8, 15]), qit, eps, qeps, rng.choice([0.0, 0.1, 1.0, 50.0]), deps), len(ops), " ".join(ops))))

    def corrupt(r, i):
        for e in reversed(r["ev"]):
            if e["op"] == "solve" and e["status"] == "SOLVED":
                n = r["D"]["N"] * r["D"]["S"] + 1
                k = [n * r["D"]["nx"] - 1, 0, 1][i % 3]
                e["st"]["z"][k] = repr(float(e["st"]["z"][k]) + 0.5)
                return r
    recs = decide(c, exe, sc, meta, "adm", corrupt)
    solved = sum(e["op"] == "solve" and e["status"] == "SOLVED" for r in recs for e in r["ev"])
    total = sum(e["op"] == "solve" for r in recs for e in r["ev"])
    c.extra["solves"], c.extra["successful_solves"] = total, solved
    c.log("%d of %d solves reported success" % (solved, total))


LOOPS = [(Mshape(2, 1, 1, 1, 1, 3, 2), 0), (Mshape(2, 2, 0, 1, 0, 4, 1), 0), (Mshape(2, 1, 0, 1, 1, 2, 3), 1), (Mshape(1, 1, 2, 0, 0, 3, 2), 1), (Mshape(2, 1, 0, 1, 0, 2, 2, "float"), 0)]
LOOPS_DEEP = [(Mshape(3, 2, 1, 2, 1, 2, 2), 0), (Mshape(1, 1, 1, 1, 2, 5, 1), 0), (Mshape(2, 2, 1, 1, 1, 3, 2), 1), (Mshape(3, 1, 0, 1, 0, 3, 3), 1), (Mshape(2, 1, 1, 1, 0, 6, 1), 0), (Mshape(2, 1, 1, 1, 1, 2, 2, may=False), 0)]
