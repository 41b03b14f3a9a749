"""Checks of the collocation transcription of optimal control problems (O01..O06)."""
import math
from vlib import build
import gen_prog

VALUES = ["eq", "ineq", "con"]
FIRST = ["cg", "eql", "ineql", "conl", "lg", "lgj", "lag", "lagc"]
SECOND = ["cgh", "lghshort", "lgh", "lghs"]


class Shape:
    def __init__(self, nx, nu, np, nd, ng, N, S, sc="double", lag=True, may=True, heap=0):
        self.__dict__.update(nx=nx, nu=nu, np=np, nd=nd, ng=ng, N=N, S=S, sc=sc, lag=lag, may=may, heap=heap)    # heap: dense matrices of so many bytes are too large for the stack
        self.nodes = N * S + 1
        self.nv = (nx + nu) * self.nodes + np
        self.ne, self.ni = nx * self.nodes, ng * self.nodes
        self.nl = self.ne + self.ni + self.nv

    def name(self, fmt):
        return "ocp_%d_%d_%d_%d_%d_%d_%d_%s%s%s_%s" % (self.nx, self.nu, self.np, self.nd, self.ng, self.N, self.S, self.sc[0], "" if self.lag else "l", "" if self.may else "m", "ds"[fmt])

    def unit(self, fmt, level=2):
        nm = self.name(fmt)
        return ("ocp_unit.cpp", ["CLS=Class_" + nm, "X_=%d" % self.nx, "U_=%d" % self.nu, "P_=%d" % self.np, "D_=%d" % self.nd, "G_=%d" % self.ng, "ORD=%d" % self.N, "SEG=%d" % self.S,
                                 "FMT=%d" % fmt, "LEVEL=%d" % level, "SC=" + self.sc, 'NAME="%s"' % nm] + ([] if self.lag else ["NOLAG"]) + ([] if self.may else ["NOMAY"]) + (["EIGEN_STACK_ALLOCATION_LIMIT=%d" % self.heap] if self.heap and not fmt else []))

    def times(self, t0, tf):
        h = (tf - t0) / self.S
        r = []
        for k in range(self.nodes):
            s = min(k // self.N, self.S - 1)
            r.append(tf - s * h - h / 2 + h / 2 * math.cos(math.pi * (k - s * self.N) / self.N))
        return r


QUICK = [Shape(2, 1, 0, 0, 0, 3, 1), Shape(2, 3, 1, 1, 1, 2, 2), Shape(1, 2, 2, 1, 2, 3, 2), Shape(1, 1, 1, 0, 0, 4, 2, lag=False), Shape(2, 1, 2, 2, 1, 2, 3, may=False, heap=2048), Shape(2, 1, 0, 1, 2, 3, 2, "float")]
BIG = [Shape(2, 2, 1, 0, 1, 5, 4)]
DEEP = [Shape(3, 1, 1, 0, 1, 5, 1), Shape(1, 3, 0, 2, 0, 6, 1), Shape(1, 1, 0, 0, 0, 2, 5), Shape(3, 2, 2, 1, 2, 1, 3), Shape(2, 2, 3, 0, 1, 4, 1), Shape(2, 1, 1, 3, 0, 7, 1, lag=False),
        Shape(1, 1, 1, 1, 3, 2, 3, "float"), Shape(4, 1, 0, 0, 1, 2, 2), Shape(1, 4, 1, 1, 1, 3, 2, may=False), Shape(3, 2, 1, 0, 0, 5, 4)]
LIMITS = [(0.0, 1.0), (0.0, 2.0), (-1.5, 0.75), (3.25, 4.0), (0.5, 5.5), (1.0, 1.125)]


def history(rng, sh, fmt, ops, length, lims, npts):
    """An event list; sparse matrices are kept over the history and now and then replaced by empty ones."""
    ok = [o for o in ops if not (o in ("ineq", "ineql") and sh.ng == 0)]
    ev = []
    for i in range(length):
        if rng.random() < 0.25 and len(lims) > 1:
            ev.append("lim %r %r" % rng.choice(lims))
        if rng.random() < 0.1:
            ev.append("fresh %r" % rng.choice([0.0, 2.5]))
        ev.append("%s %d %r %r" % (rng.choice(ok), rng.randrange(npts), rng.choice([1.0, 0.0, 2.5, -0.7]), rng.choice([0.0, 7.5, -3.0, 1e3])))
    return ev


def user_program(rng, sh, regs, length=None, ops=None):
    """A program that behaves at all given register files, and its outputs (dynamics, path constraints, running cost, terminal cost)."""
    base = sh.nx + sh.nu + sh.np + sh.nd + 1
    prog = gen_prog.program(rng, base, regs, length or rng.randint(5, 11), ops or (gen_prog.ALL if rng.random() < 0.6 else gen_prog.POLY), big=12.0)
    n = base + len(prog)
    consts = [base + k + 1 for k, q in enumerate(prog) if q[0] == "const"]
    out = lambda: rng.choice(consts) if consts and rng.random() < 0.25 else rng.choice([n, rng.randint(1, n), rng.randint(max(1, n - 5), n)])
    outs = [out() for _ in range(sh.nx + sh.ng)]
    outs += [out() if sh.lag else 0, out() if sh.may else 0]
    def push(*i):
        prog.append(i)
        return base + len(prog)
    if sh.np and rng.random() < 0.7:      # outputs that surely depend on the parameters
        for k in rng.sample(range(sh.nx + sh.ng), min(2, sh.nx + sh.ng)):
            outs[k] = push("add", outs[k], push("mul", sh.nx + sh.nu + rng.randint(1, sh.np), rng.randint(1, base), 0.0), 0.0)
    if rng.random() < 0.6:      # a cost whose Hessian couples every pair of variables
        s = push("mulc", 1, 0, round(rng.uniform(0.2, 0.6), 3))
        for k in range(2, base):
            s = push("add", s, push("mulc", k, 0, rng.choice([-1, 1]) * round(rng.uniform(0.2, 0.6), 3)), 0.0)
        s = push("add", push("sq", s, 0, 0.0), rng.randint(1, n), 0.0)
        at = rng.choice([k for k, have in ((-2, sh.lag), (-1, sh.may)) if have])
        outs[at] = s
    return prog, outs


def scenario(rng, sh, ev_of, npts=3, ntimes=2, length=None, ops=None):
    lims = [(0.0, 1.0)] + rng.sample(LIMITS[1:], ntimes - 1)
    if rng.random() < 0.4:      # the same duration at another time
        lims[-1] = rng.choice([(a + 1.0, b + 1.0) for a, b in lims[:-1]] or lims)
    num = lambda: rng.choice([0.0, 1.0, round(rng.uniform(-1.5, 1.5), 4), round(rng.uniform(-1.5, 1.5), 4), round(rng.uniform(-1.5, 1.5), 4)])
    pts = [([num() for _ in range(sh.nv)], [num() for _ in range(sh.nd)], [rng.choice([0.0, 1.0, round(rng.uniform(-2, 2), 3)]) for _ in range(sh.nl)]) for _ in range(npts)]
    regs = []
    for z, d, _ in pts:
        for lim in lims:
            for k, t in enumerate(sh.times(*lim)):
                o = sh.nx * sh.nodes
                regs.append(z[k * sh.nx:(k + 1) * sh.nx] + z[o + k * sh.nu:o + (k + 1) * sh.nu] + z[sh.nv - sh.np:] + d + [t])
    prog, outs = user_program(rng, sh, regs, length, ops)
    ev = ev_of(lims, npts)
    fl = lambda v: " ".join(map(repr, v))
    return "%s %s %d %s %d %s" % (gen_prog.tokens(prog), " ".join(map(str, outs)), npts, " ".join("%s %s %s" % (fl(z), fl(d), fl(l)) for z, d, l in pts), len(ev), " ".join(ev))


def prepare(c, shapes, fmts=(0, 1), level=2):
    c.assumptions += ["Num.java computes the numerals of the specification correctly to 40 digits",
                      "values are compared within a forward error bound proportional to the largest jet entry, the differentiation matrix and the multipliers"]
    exe = build([s.unit(f, level) for s in shapes for f in fmts])
    c.log("built %d problem shapes" % (len(shapes) * len(fmts)))
    return exe


def decide(c, exe, sc, meta, corrupt):
    out = c.run_harness(exe, sc)
    recs = []
    for s, v in out.items():
        v["u"] = "2e-12" if meta[s] == "double" else "1e-3"
        recs.append(v)
    rej = c.validate("OcpTrace", recs)
    c.log("validated %d histories (%d events), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(r["ev"]) for r in recs)
    if sc:
        c.samples.append({"scenario": sc[0][1][:400]})
    good = [r for r in recs if r["id"] not in rej and meta[r["id"]] == "double"]
    if good and not rej:
        c.self_test("OcpTrace", good[:16], corrupt)


def bump(v):
    return [bump(v[0])] + v[1:] if isinstance(v, list) else repr(float(v) + 0.01 + 0.1 * abs(float(v)))


def corruptor(keys):
    def corrupt(x, i):
        for k in range(len(keys)):
            want = keys[(i + k) % len(keys)]
            for j, e in enumerate(x["ev"]):
                if e.get(want):
                    e[want] = bump(e[want])
                    x["ev"] = x["ev"][:j + 1]
                    return x
    return corrupt


def evaluations(c, shapes, ops, per, length, keys, fmts=(0, 1), always=(), npts=3, ntimes=2, level=2):
    rng = c.rng
    exe = prepare(c, shapes, fmts, level)
    sc, meta = [], {}
    for sh in shapes:
        for i in range(per if sh.nv < 80 else max(1, per // 12)):
            def ev_of(lims, npts):
                ev = list(always)
                # each operation at least once, in random order
                todo = [o for o in ops if not (o in ("ineq", "ineql") and sh.ng == 0)]
                rng.shuffle(todo)
                for o in todo:
                    # mostly at two points in succession
                    for pt in rng.sample(range(npts), rng.choice([1, 2, 2]) if npts > 1 else 1):
                        ev.append("%s %d %r %r" % (o, pt, rng.choice([1.0, 0.0, 2.5, -0.7]), rng.choice([0.0, 7.5, -3.0, 1e3])))
                    if rng.random() < 0.3:
                        ev.append("lim %r %r" % rng.choice(lims))
                        ev += list(always)
                return ev + history(rng, sh, 0, ops, length, lims, npts) + list(always)
            line = scenario(rng, sh, ev_of, npts=npts, ntimes=ntimes)
            for f in fmts:
                sid = "%s-%d" % (sh.name(f), i)
                meta[sid] = sh.sc
                sc.append((sid, sh.name(f) + " " + line))
    decide(c, exe, sc, meta, corruptor(keys))


def shapes(c):
    return QUICK + BIG if c.quick else QUICK + BIG + DEEP


def model(c):
    c.model("MCOcp", "MCOcpQuick" if c.quick else "MCOcp", workers=8, timeout=850)


def o01(c):
    model(c)
    evaluations(c, shapes(c), VALUES, 6 if c.quick else 40, 4, ["ce", "c", "tn", "ci"], always=["time"], ntimes=3, level=0)


def o02(c):
    model(c)
    evaluations(c, shapes(c), ["cost"], 6 if c.quick else 60, 5, ["f"], ntimes=4, level=0)


def o03(c):
    model(c)
    evaluations(c, shapes(c), FIRST, 2 if c.quick else 24, 4, ["g", "j", "lg", "je", "ji", "lv"], level=1)


def o04(c):
    model(c)
    evaluations(c, shapes(c), SECOND, 4 if c.quick else 30, 4, ["ch", "h"])


def o05(c):
    rng = c.rng
    ss = [s for s in shapes(c)]
    exe = prepare(c, ss)
    sc, meta = [], {}
    ops = ["cgh", "lgh", "lghs", "lghshort", "conl", "eql", "ineql", "lgj", "lg"]
    for sh in ss:
        for i in range(2 if c.quick else 16 if sh.nv < 80 else 2):
            line = scenario(rng, sh, lambda lims, npts: history(rng, sh, 1, ops, 10 if c.quick else 30, lims, npts), npts=4, ntimes=2, length=rng.randint(4, 8))
            for f in (1, 0):
                sid = "%s-%d" % (sh.name(f), i)
                meta[sid] = sh.sc
                if f == 1 or i == 0:
                    sc.append((sid, sh.name(f) + " " + line))
    decide(c, exe, sc, meta, corruptor(["ch", "h", "j", "je", "ji"]))


def o06(c):
    rng = c.rng
    for cfg in ("", "P", "Full1") if c.quick else ("", "P", "Full"):
        c.model("MCBlockBfgs", "MCBlockBfgs" + cfg, workers=8, timeout=850)
    ss = [s for s in shapes(c) if s.sc == "double" or not c.quick]
    exe = prepare(c, ss, (1,))
    sc, meta = [], {}

    def ups(sh, n):
        ev = []
        o = sh.nx * sh.nodes
        for i in range(n):
            own = rng.choice([0, 0, rng.randint(1, sh.nodes)])
            shift = rng.choice([0.0, 0.5, 2.0, 30.0]) if i else rng.choice([0.5, 2.0])
            b = [round(rng.uniform(-1, 1), 4) for _ in range(sh.nv)]
            sc_ = rng.choice([1.0, 1.0, 1e-2, 0.0 if rng.random() < 0.3 else 1.0])
            s = [round(rng.uniform(-1, 1), 4) * sc_ for _ in range(sh.nv)]
            mine = lambda c: own == 0 or (c < o and c // sh.nx == own - 1) or (o <= c < sh.nv - sh.np and (c - o) // sh.nu == own - 1)
            s = [v if mine(k) else 0.0 for k, v in enumerate(s)]
            w = rng.choice([-1.0, 0.02, 0.3, 3.0])
            y = [w * shift * v + (0.05 * sc_ * round(rng.uniform(-1, 1), 4) if rng.random() < 0.5 else 0.0) for v in s]
            if rng.random() < 0.3:
                y = [round(rng.uniform(-1, 1), 4) * sc_ for _ in s]
            if own and rng.random() < 0.7:
                y = [v if mine(k) else 0.0 for k, v in enumerate(y)]
            fl = lambda v: " ".join(map(repr, v))
            ev.append("hup %d %r %s %s %s" % (own, shift, fl(s), fl(y), fl(b)))
        return ev
    for sh in ss:
        for i in range(4 if c.quick else 40 if sh.nv < 80 else 3):
            line = scenario(rng, sh, lambda lims, npts: ["%s 0 1.0 0.0" % rng.choice(["cgh", "lgh"])] + ups(sh, 4) + (["lgh 0 1.0 0.0"] + ups(sh, 2) if rng.random() < 0.5 else []), npts=1, ntimes=2, length=4, ops=gen_prog.POLY)
            sid = "%s-%d" % (sh.name(1), i)
            meta[sid] = sh.sc
            sc.append((sid, sh.name(1) + " " + line))
    decide(c, exe, sc, meta, corruptor(["h1"]))
