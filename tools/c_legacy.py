"""Check of the stand-alone collocation functors (C01)."""
from vlib import build
import gen_prog
fl = lambda v: " ".join(map(repr, v))


class Fs:
    def __init__(self, nx, nu, np, ng, N, S, sc="double", fam=0, stock=0):
        self.__dict__.update(nx=nx, nu=nu, np=np, ng=ng, N=N, S=S, sc=sc, fam=fam, stock=stock)
        self.nodes = N * S + 1
        self.nv = (nx + nu) * self.nodes + np
        self.nm = "fun_%d_%d_%d_%d_%d_%d_%s%d%d" % (nx, nu, np, ng, N, S, sc[0], fam, stock)

    def unit(self):
        return ("legacy_unit.cpp", ["CLS=C_" + self.nm, "X_=%d" % self.nx, "U_=%d" % self.nu, "P_=%d" % self.np, "G_=%d" % self.ng, "ORD=%d" % self.N, "SEG=%d" % self.S, "SC=" + self.sc,
                                    "FAM=%d" % self.fam, "STOCK=%d" % self.stock, 'NAME="%s"' % self.nm] + (["PROG_NOABS=1"] if self.stock else []))


QUICK = [Fs(2, 1, 1, 1, 3, 2), Fs(2, 3, 1, 2, 2, 3), Fs(3, 1, 0, 2, 4, 1), Fs(1, 2, 2, 1, 5, 1), Fs(2, 1, 0, 1, 3, 2, "float"), Fs(2, 2, 1, 1, 3, 2, fam=1), Fs(1, 1, 0, 1, 2, 2, stock=1), Fs(1, 1, 1, 1, 4, 3), Fs(2, 1, 1, 1, 4, 5)]
DEEP = [Fs(3, 2, 1, 3, 5, 2), Fs(4, 1, 2, 1, 2, 2), Fs(2, 1, 1, 1, 1, 4), Fs(2, 2, 0, 1, 6, 1, fam=1), Fs(3, 1, 1, 2, 3, 3, fam=1), Fs(2, 1, 2, 2, 7, 1), Fs(2, 3, 1, 1, 3, 2, stock=1), Fs(1, 3, 0, 4, 3, 4, "float"), Fs(2, 2, 3, 2, 4, 2)]
TIMES = [(-1.0, 1.0), (0.0, 1.0), (0.0, 2.0), (-1.5, 0.75), (3.25, 4.0), (0.5, 5.5), (1.0, 1.125)]


def scenario(rng, sh, given, nev):
    num = lambda: rng.choice([0.0, 1.0] + [round(rng.uniform(-1.5, 1.5), 4) for _ in range(5)])
    z = [[num() for _ in range(sh.nv)] for _ in range(3)]
    xs = [v[k * sh.nx:(k + 1) * sh.nx] for v in z for k in range(sh.nodes)]
    ops = [o for o in (gen_prog.ALL if rng.random() < 0.6 else gen_prog.POLY) if not (sh.stock and o == "abs")]
    base = sh.nx + sh.nu + sh.np + 1
    # the terminal cost sees the states only
    head = gen_prog.program(rng, sh.nx, xs, rng.randint(1, 4), ops, big=12.0)
    mv = lambda a, b0: a if a <= b0 or a == 0 else a + base - b0
    head = [(o, mv(a, sh.nx), mv(b, sh.nx), c) for o, a, b, c in head]
    full = []
    o = sh.nx * sh.nodes
    for v in z:
        for k in range(sh.nodes):
            r = v[k * sh.nx:(k + 1) * sh.nx] + v[o + k * sh.nu:o + (k + 1) * sh.nu] + v[sh.nv - sh.np:] + [0.0]
            for i in head:
                r.append(gen_prog.f(i, r))
            full.append(r)
    # the register of time is never used: positions after it are counted without it
    cut = base - 1
    pts = [r[:cut] + r[cut + 1:] for r in full]
    body = gen_prog.program(rng, cut + len(head), pts, rng.randint(4, 10), ops, big=12.0)
    up = lambda a: a + 1 if a > cut else a
    prog = head + [(o_, up(a), up(b), c) for o_, a, b, c in body]
    n = base + len(prog)
    consts = [base + k + 1 for k, q in enumerate(prog) if q[0] == "const"]
    regs = [r for r in range(1, n + 1) if r != base]
    out = lambda: rng.choice(consts) if consts and rng.random() < 0.25 else rng.choice(regs[-6:] + regs)
    mays = [r for r in list(range(1, sh.nx + 1)) + list(range(base + 1, base + len(head) + 1))]
    outs = [out() for _ in range(sh.nx + sh.ng + 1)] + [rng.choice(mays)]
    kinds = ["ode", "sode", "lin", "slin", "slin", "con"] + (["cost", "costg", "costh"] if sh.fam == 0 else [])
    ev = []
    for _ in range(nev):
        if rng.random() < 0.1:
            ev.append("fresh 0 0.0 0.0 1.0")
        t0, tf = rng.choice(TIMES)
        ev.append("%s %d %r %r %r" % (rng.choice(kinds), rng.randrange(3), rng.choice([0.0, 7.5, -3.0, 1e3]), t0, tf))
    return "%s %s %d %s %d 3 %s %d %s" % (sh.nm, gen_prog.tokens(prog), len(head), " ".join(map(str, outs)), given, " ".join(map(fl, z)), len(ev), " ".join(ev))


def c01(c):
    rng = c.rng
    c.assumptions += ["values are compared within a forward error bound proportional to the largest jet entry and the differentiation matrix"]
    shapes = QUICK if c.quick else QUICK + DEEP
    # the two AutoDiffScalar classes share their name: each has its own program
    exe = [build([s.unit() for s in shapes if s.stock == k]) for k in (0, 1)]
    c.log("built %d functor sets" % len(shapes))
    sc, meta = [], {}
    for sh in shapes:
        for i in range(24 if c.quick else 80):
            sid = "%s-%d" % (sh.nm, i)
            meta[sid] = sh
            sc.append((sid, scenario(rng, sh, i % 3 == 2, rng.randint(5, 10))))
    out = {}
    for k in (0, 1):
        out.update(c.run_harness(exe[k], [x for x in sc if meta[x[0]].stock == k]))
    recs = []
    for s, v in out.items():
        v["u"] = "2e-12" if meta[s].sc == "double" else "1e-3"
        recs.append(v)
    rej = c.validate("FunctorsTrace", recs)
    c.log("validated %d histories (%d events), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(r["ev"]) for r in recs)
    c.samples.append({"scenario": sc[0][1][:400]})

    def bump(v):
        return [bump(v[0])] + v[1:] if isinstance(v, list) else repr(float(v) + 0.01 + 0.1 * abs(float(v)))

    def corrupt(r, i):
        for k in (["ce", "je", "f", "g", "ch", "ci"] * 2)[i % 6:]:
            for j, e in enumerate(r["ev"]):
                if e.get(k):
                    e[k] = bump(e[k])
                    r["ev"] = r["ev"][:j + 1]
                    return r
    if not rej:
        c.self_test("FunctorsTrace", [r for r in recs if meta[r["id"]].sc == "double"][:12], corrupt)
