"""Check of the QP preconditioners (Q07)."""
from vlib import build
INF = float("inf")
fl = lambda v: " ".join("inf" if x == INF else "-inf" if x == -INF else repr(x) for x in v)
SHAPES = [(3, 2, "double", 0, 0), (3, 2, "double", 1, 0), (2, 0, "double", 0, 0), (2, 0, "double", 1, 0), (4, 1, "float", 1, 0), (2, 3, "float", 0, 0), (2, 1, "double", 0, 1), (1, 1, "double", 1, 0)]
DEEP = [(6, 4, "double", 1, 0), (6, 4, "double", 0, 0), (1, 0, "double", 1, 0), (1, 3, "double", 0, 0), (5, 5, "float", 1, 0), (3, 2, "double", 1, 1), (8, 3, "double", 0, 0)]


def data(rng, n, m, flt):
    w = [10.0 ** rng.uniform(-2, 2) if rng.random() < 0.5 else 1.0 for _ in range(n)]
    e = [10.0 ** rng.uniform(-2, 2) if rng.random() < 0.5 else 1.0 for _ in range(m)]
    cw = 10.0 ** (rng.uniform(-2, 2) if flt else rng.uniform(-5, 5)) if rng.random() < 0.5 else 1.0
    dens = rng.choice([1.0, 0.6, 0.2])
    v = lambda: rng.choice([1.0, -1.0, round(rng.uniform(-2, 2), 3), round(rng.uniform(-2, 2), 3)])
    H = [[(0.0, 0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            if rng.random() < dens or (i == j and rng.random() < 0.5):
                H[i][j] = H[j][i] = (cw * w[i] * w[j] * v() if rng.random() < 0.9 else 0.0, 1)
    if rng.random() < 0.08:
        H = [[(0.0, rng.randint(0, 1))] * n for _ in range(n)]
    A = [[(e[i] * w[j] * v(), 1) if rng.random() < dens else (0.0, rng.random() < 0.2 and 1 or 0) for j in range(n)] for i in range(m)]
    if m and rng.random() < 0.15:
        A[rng.randrange(m)] = [(0.0, 0)] * n
    if n > 1 and rng.random() < 0.15:
        k = rng.randrange(n)
        for i in range(m):
            A[i][k] = (0.0, 0)
    if m and rng.random() < 0.05:
        A = [[(0.0, 0)] * n for _ in range(m)]
    h = [cw * w[i] * v() if rng.random() < 0.8 else 0.0 for i in range(n)] if rng.random() < 0.75 else [0.0] * n

    def bnd(k):
        lo, up = [], []
        for _ in range(k):
            a, b = sorted([round(rng.uniform(-3, 3), 3), round(rng.uniform(-3, 3), 3)])
            r = rng.random()
            a, b = (-INF, INF) if r < 0.2 else (-INF, b) if r < 0.35 else (a, INF) if r < 0.5 else (a, a) if r < 0.6 else (0.0, b + 4) if r < 0.7 else (a, b)
            lo.append(a)
            up.append(b)
        return lo, up
    al, au = bnd(m)
    lx, ux = bnd(n)
    mat = lambda M: " ".join("%r %d" % x for r in M for x in r)
    return "%s %s %s %s %s %s %s" % (mat(H), fl(h), mat(A), fl(al), fl(au), fl(lx), fl(ux))


def q07(c):
    rng = c.rng
    c.assumptions += ["Num.java computes the numerals of the specification correctly to 40 digits", "entries are compared relatively to their own size (a few rounding units)"]
    c.model("MCScaling", "MCScalingQuick" if c.quick else "MCScaling", workers=8, timeout=400)
    if not c.quick:
        c.model("MCScaling", "MCScalingDeep", workers=8, timeout=850)
    us = []
    shapes = SHAPES if c.quick else SHAPES + DEEP
    for n, m, S, f, idn in shapes:
        nm = "pre_%d_%d_%s%d%d" % (n, m, S[0], f, idn)
        us.append((nm, ("pre_unit.cpp", ["N_=%d" % n, "M_=%d" % m, "SC=" + S, "FMT=%d" % f, 'NAME="%s"' % nm] + (["IDENT"] if idn else []))))
    exe = build([u for _, u in us])
    c.log("built %d variants" % len(us))
    sc, meta = [], {}
    for (n, m, S, f, idn), (nm, _) in zip(shapes, us):
        for i in range(40 if c.quick else 500):
            k = rng.randint(1, 3)
            ds = [data(rng, n, m, S == "float") for _ in range(k)]
            ev, scaled = [], [False] * k
            for _ in range(rng.randint(3, 9)):
                r = rng.random()
                d = rng.randrange(k)
                if not ev or r < 0.3:
                    # undo, then equilibrate some data afresh, as the solver does in every iteration
                    ev.append("compute %d" % d)
                    scaled = [False] * k
                    scaled[d] = True
                elif r < 0.6:
                    ev.append(("unscale %d" if scaled[d] else "scale %d") % d)
                    scaled[d] = not scaled[d]
                elif r < 0.68:
                    ev.append("unhess %d" % d)
                else:
                    ev.append("%s %s" % (rng.choice(["scsol", "unsol"]), fl(rng.choice([0.0, 1.0, round(rng.uniform(-3, 3), 3)]) for _ in range(n + n + m))))
            sid = "%s-%d" % (nm, i)
            meta[sid] = (S, idn)
            sc.append((sid, "%s %d %s %d %s" % (nm, k, " ".join(ds), len(ev), " ".join(ev))))
    out = c.run_harness(exe, sc)
    recs = [dict(v, u="2e-14" if meta[s][0] == "double" else "1e-5", tiny="1e-290" if meta[s][0] == "double" else "1e-36", ident=bool(meta[s][1])) for s, v in out.items()]
    rej = c.validate("ScalingTrace", recs)
    c.log("validated %d histories (%d operations), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(r["ev"]) for r in recs)
    c.samples.append({"scenario": sc[0][1][:500]})

    def corrupt(r, i):
        for e in r["ev"]:
            if e["op"] in ("compute", "scale", "unscale"):
                k = ["h", "H", "lx", "A", "ux", "c"][i % 6]
                for b in ([e["b"]] if k != "c" else [e]):
                    v = b[k]
                    if isinstance(v, list):
                        v = v[0] if v and isinstance(v[0], list) else v
                        for j, z in enumerate(v):
                            if "inf" not in z:
                                v[j] = repr(float(z) * 1.001 + 1e-9 * (float(z) == 0))
                                return r
                    else:
                        b[k] = repr(float(v) * 1.001)
                        return r
        return None
    good = [r for r in recs if meta[r["id"]] == ("double", 0) and r["ev"][0]["op"] == "compute" and any(float(v) for v in r["ev"][0]["a"]["h"])]
    if good and not rej:
        c.self_test("ScalingTrace", good[:12], corrupt)
