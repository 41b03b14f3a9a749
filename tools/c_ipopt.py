"""Checks of the adapters to external solvers, driven by stand-ins for the libraries (N01, N02)."""
from vlib import build
import c_ocp, gen_prog
from c_ocp import Shape

STUB = "-I" + __import__("os").path.join(__import__("vlib").H, "stub")


def nlp_unit(nx, ne, ni, np):
    nm = "ip_%d_%d_%d_%d" % (nx, ne, ni, np)
    return nm, ("ipopt_unit.cpp", ["KIND=0", "CLS=Class_" + nm, "NX_=%d" % nx, "NE_=%d" % ne, "NI_=%d" % ni, "NP_=%d" % np, "SC=double", 'NAME="%s"' % nm])


def ocp_unit(sh, fmt):
    nm = "ip" + sh.name(fmt)
    _, defs = sh.unit(fmt)
    return nm, ("ipopt_unit.cpp", ["KIND=1"] + [d for d in defs if not d.startswith(("NAME=", "LEVEL="))] + ['NAME="%s"' % nm])


def fl(v):
    return " ".join(map(repr, v))


def script(rng, npts, evals, gives):
    """The callbacks of one run, in Ipopt's order."""
    t = ["info", "bounds", "start 1 %d %d" % (rng.random() < 0.6, rng.random() < 0.6), "sj", "sh"]
    if rng.random() < 0.3:
        t[3], t[4] = t[4], t[3]
    kinds = ["f", "gf", "g", "jac", "h"]
    todo = kinds[:]
    rng.shuffle(todo)
    todo += [rng.choice(kinds) for _ in range(evals)]
    p = rng.randrange(npts)
    for k in todo:
        if rng.random() < 0.4:
            p = rng.randrange(npts)
        t.append("%s %d" % (k, p) + (" %d %r" % (rng.randrange(npts), rng.choice([1.0, 0.0, 2.5, 0.3])) if k == "h" else ""))
    status = rng.choice([0, 0, 0, 1, 2, -1, -2])
    if gives:
        t.append("fin %d %d %d %d %r" % (0 if status == 0 else 1, rng.randrange(npts), rng.randrange(npts), rng.randrange(npts), rng.uniform(-5, 5)))
    t.append("end %d %d %s" % (status, rng.randint(0, 200), fl([round(rng.uniform(-9, 9), 5)] + [round(rng.uniform(0, 1), 6) for _ in range(5)])))
    return "%d %s" % (len(t), " ".join(t))


def history(rng, nv, ne, ni, qs, npts, lims, runs, evals):
    nc = ne + ni
    num = lambda: rng.choice([0.0, 1.0, round(rng.uniform(-2, 2), 4), round(rng.uniform(-2, 2), 4)])
    bound = lambda: [rng.choice([float("-inf"), float("inf"), round(rng.uniform(-3, 3), 3), 0.0]) for _ in range(1)][0]
    def setter():
        k = rng.choice(["lbx", "ubx", "x0", "lam0", "par"] + (["lbg", "ubg"] if ni else []) + (["lim"] if lims else []))
        n = dict(lbx=nv, ubx=nv, x0=nv, lam0=nv + nc, lbg=ni, ubg=ni).get(k)
        if k == "par":
            return "par " + fl(rng.choice(qs))
        if k == "lim":
            return "lim %r %r" % rng.choice(lims)
        return k + " " + fl([(num if k in ("x0", "lam0") else bound)() for _ in range(n)])
    ev = ["get"] if rng.random() < 0.3 else []
    if rng.random() < 0.8:
        ev.append("par " + fl(qs[0]))
    for _ in range(runs):
        ev += [setter() for _ in range(rng.randint(0, 3))]
        s = script(rng, npts, evals, rng.random() < 0.85)
        if rng.random() < 0.4:
            ev.append("guess %s %s %s" % (fl([num() for _ in range(nv)]), fl([num() for _ in range(nv + nc)]), s))
        else:
            ev.append("solve " + s)
        ev.append("get")
    return "%d %s" % (len(ev), " ".join(ev))


def points(rng, xs, nc, nv):
    r = []
    for x in xs:
        lam = [rng.choice([0.0, 1.0, round(rng.uniform(-3, 3), 3)]) for _ in range(nc)]
        z = [rng.choice([(0.0, 0.0), (round(rng.uniform(0, 2), 3), 0.0), (0.0, round(rng.uniform(0, 2), 3)), (1e-9, 0.5)]) for _ in range(nv)]
        r.append("%s %s %s %s" % (fl(x), fl(lam), fl([a for a, _ in z]), fl([b for _, b in z])))
    return "%d %s %r" % (len(xs), " ".join(r), rng.choice([7.5, -3.0, 1e3]))


def n01(c):
    rng = c.rng
    c.model("MCAdapter", "MCAdapterQuick" if c.quick else "MCAdapter", workers=8, timeout=850)
    c.assumptions += ["Num.java computes the numerals of the specification correctly to 40 digits",
                      "the stand-in calls back with Ipopt's documented protocol; Ipopt itself is not installed here",
                      "values are compared within a forward error bound proportional to the largest jet entry of the program; programs stay away from kinks and poles"]
    nlps = [(3, 1, 2, 1), (2, 0, 0, 0), (4, 2, 0, 2), (2, 0, 3, 0)]
    shapes = [Shape(2, 1, 0, 0, 0, 3, 1), Shape(1, 1, 1, 1, 1, 2, 2), Shape(2, 1, 2, 0, 2, 2, 1, heap=900)]
    if not c.quick:
        nlps += [(6, 3, 2, 1), (1, 1, 0, 0), (5, 0, 4, 3)]
        shapes += [Shape(1, 2, 0, 2, 1, 4, 2), Shape(3, 1, 1, 0, 0, 2, 3, lag=False), Shape(1, 1, 2, 1, 2, 3, 2, may=False)]
    nu = [nlp_unit(*x) for x in nlps]
    ou = [[ocp_unit(s, f) for f in (0, 1)] for s in shapes]
    exe = build([u for _, u in nu] + [u for p in ou for _, u in p], [STUB])
    c.log("built %d problems behind the adapter" % (len(nu) + 2 * len(ou)))
    sc = []
    for (nx, ne, ni, np), (nm, _) in zip(nlps, nu):
        for i in range(10 if c.quick else 120):
            xs = [[round(rng.uniform(-2, 2), 4) for _ in range(nx)] for _ in range(3)]
            qs = [[round(rng.uniform(-2, 2), 4) for _ in range(np)] for _ in range(2)] + [[0.0] * np]
            prog = gen_prog.program(rng, nx + np, [x + q for x in xs for q in qs], rng.randint(4, 14), gen_prog.ALL if rng.random() < 0.7 else gen_prog.POLY)
            n = nx + np + len(prog)
            outs = [rng.choice([n, rng.randint(1, n), rng.randint(max(1, n - 6), n)]) for _ in range(1 + ne + ni)]
            sc.append(("%s-%d" % (nm, i), "%s %s %s %s %s" % (nm, gen_prog.tokens(prog), " ".join(map(str, outs)), points(rng, xs, ne + ni, nx), history(rng, nx, ne, ni, qs, 3, None, rng.randint(1, 3), 6))))
    for sh, pair in zip(shapes, ou):
        for i in range(3 if c.quick else 24):
            lims = [(0.0, 1.0)] + rng.sample(c_ocp.LIMITS[1:], 1)
            num = lambda: rng.choice([0.0, 1.0] + [round(rng.uniform(-1.5, 1.5), 4) for _ in range(3)])
            xs = [[num() for _ in range(sh.nv)] for _ in range(2)]
            qs = [[num() for _ in range(sh.nd)], [0.0] * sh.nd]
            o = sh.nx * sh.nodes
            regs = [z[k * sh.nx:(k + 1) * sh.nx] + z[o + k * sh.nu:o + (k + 1) * sh.nu] + z[sh.nv - sh.np:] + q + [t] for z in xs for q in qs for lim in lims for k, t in enumerate(sh.times(*lim))]
            prog, outs = c_ocp.user_program(rng, sh, regs)
            line = "%s %s %s %s" % (gen_prog.tokens(prog), " ".join(map(str, outs)), points(rng, xs, sh.ne + sh.ni, sh.nv), history(rng, sh.nv, sh.ne, sh.ni, qs, 2, lims, 2, 3))
            for nm, _ in pair:
                sc.append(("%s-%d" % (nm, i), nm + " " + line))
    out = c.run_harness(exe, sc)
    recs = [dict(v, u="2e-12") for v in out.values()]
    rej = c.validate("AdapterTrace", recs)
    c.log("validated %d histories (%d events), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(r["ev"]) for r in recs)
    c.samples.append({"scenario": sc[0][1][:400]})
    good = [r for r in recs if r["id"] not in rej and r["kind"] == "nlp" and r["D"]["ne"] + r["D"]["ni"] > 0]
    if good and not rej:
        keys = [("bounds", "gl"), ("start", "x"), ("f", "f"), ("gf", "g"), ("jac", "j"), ("h", "h"), ("get", "lam"), ("get", "viol"), ("g", "c"), ("info", "m")]
        def corrupt(x, i):
            for k in range(len(keys)):
                op, want = keys[(i + k) % len(keys)]
                hit = [e for e in x["ev"] if e["op"] == op and e.get(want) not in (None, [])]
                if op == "get":
                    hit = hit[-1:]
                if hit:
                    v = hit[0][want]
                    if v and isinstance(v, list) and v[0] in ("inf", "-inf"):
                        continue
                    hit[0][want] = v + 1 if isinstance(v, int) else c_ocp.bump(v)
                    return x
        c.self_test("AdapterTrace", [g for g in good if max(abs(float(v)) for e in g["ev"] for v in e.get("x", [])) < 3][:24], corrupt)


# ------------------------------------------------------------------ OSQP, qpmad (N02)
def pattern(rng, rows, cols, dens):
    return [(i, j) for j in range(cols) for i in range(rows) if rng.random() < dens]


def one_solve(rng, n, m, warm, reuse, apat):
    num = lambda: rng.choice([0.0, 1.0, -1.0, round(rng.uniform(-3, 3), 4)])
    hp = {}
    for i in range(n):
        hp[i, i] = round(rng.uniform(0.1, 4), 3)
        for j in range(i):
            if rng.random() < 0.5:
                hp[i, j] = hp[j, i] = num()
    h_entries = sorted(hp.items(), key=lambda x: (x[0][1], x[0][0]))
    bnd = lambda k: zip(*[sorted([rng.choice([float("-inf"), num()]), rng.choice([float("inf"), num()])]) for _ in range(k)]) if k else ((), ())
    al, au = bnd(m)
    xl, xu = bnd(n)
    guess = rng.random() < 0.4
    s = "%d %d %d %r %r %d %r %r %d %d" % (warm, reuse, guess, rng.choice([0.1, 1.0, 0.5]), rng.choice([1.0, 1.6]), rng.choice([20, 1000]), rng.choice([1e-3, 1e-6]), rng.choice([1e-3, 1e-5]), rng.choice([1, 25]), rng.random() < 0.5)
    ent = lambda es: "%d %s" % (len(es), " ".join("%d %d %r" % (i, j, v) for (i, j), v in es))
    s += " %d %s" % (rng.random() < 0.4, ent(h_entries))
    s += " %d %s" % (rng.random() < 0.5, ent([(p, num()) for p in apat]))
    v = lambda k: [num() for _ in range(k)]
    for part in (v(n), list(al), list(au), list(xl), list(xu), v(n), v(n + m), v(n), v(n + m)):
        s += " " + fl(part)
    return s + " %d %d %r %r %d %r" % (rng.choice([1, 1, 2, 3, 4, -2, -3, -4, -5, -6, -7, -10]), rng.randint(0, 999), rng.uniform(0, 1), rng.uniform(0, 1), rng.randint(0, 9), rng.uniform(0, 2))


def n02(c):
    rng = c.rng
    c.model("MCQpBackend", workers=4)
    c.assumptions += ["the stand-ins keep the documented rules of OSQP, OsqpEigen and qpmad; the libraries themselves are not installed here"]
    dims = [(2, 1), (3, 0), (4, 3), (1, 2)] + ([] if c.quick else [(7, 5), (5, 1)])
    exe = build([(lib + "_unit.cpp", ["N_=%d" % n, "M_=%d" % m, 'NAME="%s_%d_%d"' % (lib, n, m)]) for lib in ("osqp", "qpmad") for n, m in dims], [STUB])
    sc = []
    for n, m in dims:
        for i in range(24 if c.quick else 400):
            apat = pattern(rng, m, n, rng.choice([0.0, 0.4, 0.7, 1.0]))
            ev = []
            for k in range(rng.randint(1, 6)):
                warm = k > 0 and rng.random() < 0.6
                reuse = k > 0 and rng.random() < 0.5
                if not reuse and rng.random() < 0.7:
                    apat = pattern(rng, m, n, rng.choice([0.0, 0.4, 0.7, 1.0]))
                ev.append(one_solve(rng, n, m, warm, reuse, apat))
            for lib in ("osqp", "qpmad"):
                nm = "%s_%d_%d" % (lib, n, m)
                sc.append(("%s-%d" % (nm, i), "%s %d %s" % (nm, len(ev), " ".join(ev))))
    out = c.run_harness(exe, sc)
    recs = list(out.values())
    rej = c.validate("QpBackendTrace", recs)
    c.log("validated %d histories (%d solves), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["solves"] = sum(len(r["ev"]) for r in recs)
    c.samples.append({"scenario": sc[0][1][:400]})
    good = [r for r in recs if r["id"] not in rej and r["kind"] == "osqp"]
    if good and not rej:
        def corrupt(x, i):
            e = x["ev"][-1]
            k = i % 6
            if k == 0: e["told"]["prim"] = c_ocp.bump(e["told"]["prim"])
            elif k == 1: e["seen"]["q"] = c_ocp.bump(e["seen"]["q"])
            elif k == 2: e["told"]["y"] = c_ocp.bump(e["told"]["y"])
            elif k == 3: e["told"]["status"] += 1
            elif k == 4: e["seen"]["A"] = c_ocp.bump(e["seen"]["A"])
            else: e["calls"] = 2
            return x
        c.self_test("QpBackendTrace", good[:24], corrupt)
