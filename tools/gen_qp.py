"""QP scenarios for the ADMM / boxADMM harness and the records AdmmTrace reads."""
DIMS = {"admm": [(2, 1), (3, 2), (2, 3), (4, 2)], "box": [(2, 1), (3, 2), (2, 3), (4, 2), (2, 0)]}
VAR = {"d": ("double", "DENSE", "RecLDLT", "Eigen::Lower"), "D": ("double", "DENSE", "RecLU", "Eigen::Lower|Eigen::Upper"),
       "s": ("double", "SPARSE", "RecSLDLT", "Eigen::Lower"), "S": ("double", "SPARSE", "RecSLU", "Eigen::Lower|Eigen::Upper"),
       "f": ("float", "DENSE", "RecLDLT", "Eigen::Lower"), "g": ("float", "SPARSE", "RecSLDLT", "Eigen::Lower"),
       "h": ("double", "DENSE", "RecLDLT", "Eigen::Lower")}     # h: matrices too large for the stack


def unit(kind, n, m, v):
    sc, fmt, lin, tri = VAR[v]
    name = "%s-%d%d-%s" % (kind, n, m, v)
    return name, ("qp_unit.cpp", ["UNIT=" + name, "KIND=" + ("ADMM" if kind == "admm" else "boxADMM"), "NN=%d" % n, "MM=%d" % m,
                                  "SC=" + sc, "FMT=" + fmt, "LIN=" + lin, "TRI=" + tri] + (["EIGEN_STACK_ALLOCATION_LIMIT=%d" % (16 * n + 8 * m + 8)] if v == "h" else []))


def dy(rng, lo, hi, den=16):
    """a dyadic number: exact in float, double and decimal"""
    return rng.randint(int(lo * den), int(hi * den)) / den


def s(v):
    if v != v: return "nan"
    if v in (float("inf"), float("-inf")): return "inf" if v > 0 else "-inf"
    return repr(float(v))


def settings(rng, flt=False, max_iter=12, **kw):
    st = dict(eps_abs=rng.choice([1e-3, 1e-4, 1e-2, 1e-5]), eps_rel=rng.choice([1e-3, 1e-4, 0.0]), max_iter=max_iter,
              rho=rng.choice([0.1, 0.1, 0.5, 1.0, 4.0, 0.01]), sigma=rng.choice([1e-6, 1e-3, 0.0625, 1.0]),
              alpha=rng.choice([1.0, 1.6, 1.5, 0.75, 1.0]), check=rng.choice([1, 1, 2, 3, 5, 0]), adaptive=rng.random() < 0.6,
              interval=rng.choice([1, 2, 3, 4, 5, 7]), adtol=rng.choice([1.5, 2.0, 5.0]))
    if flt:
        st.update(eps_abs=rng.choice([1e-2, 3e-2]), sigma=rng.choice([0.0625, 0.5, 1.0]), rho=rng.choice([0.125, 0.5, 1.0]), eps_rel=rng.choice([1e-2, 0.0]))
    st.update(kw)
    return st


def bounds(rng, classes=("ineq", "eq", "loose", "lo", "up", "edge"), den=8):
    c = rng.choice(classes)
    a = dy(rng, -2, 2, den)
    inf = float("inf")
    if c == "ineq":
        return a, a + rng.choice([0.125, 0.5, 1.0, 3.0])
    if c == "eq":
        return a, a
    if c == "loose":
        return rng.choice([(-inf, inf), (-1e16, 1e16), (-1e11, 1e11)])
    if c == "lo":
        return a, rng.choice([inf, 1e16, 1e11])
    if c == "up":
        return rng.choice([-inf, -1e16, -1e11]), a
    # on either side of the class thresholds
    return rng.choice([(a, a + 2.0 ** -14), (a, a + 2.0 ** -13), (0.0, 9e-5), (0.0, 1.1e-4), (-9e9, 9e9), (-1e11, 9e9), (-9e9, 1e11)])


def problem(rng, n, m, convex=True, dense=False, full_diag=True, classes=None, feasible=False, scale=1.0):
    while True:
        k = rng.randint(0, n)
        L = [[dy(rng, -2, 2, 4) if rng.random() < 0.7 else 0.0 for _ in range(n)] for _ in range(k)]
        H = [[sum(L[r][i] * L[r][j] for r in range(k)) * scale for j in range(n)] for i in range(n)]
        if rng.random() < 0.5:
            for i in range(n):
                H[i][i] += rng.choice([0.25, 1.0, 4.0]) * scale
        h = [dy(rng, -4, 4, 8) * scale for _ in range(n)]
        A = [[dy(rng, -2, 2, 4) if rng.random() < 0.75 else 0.0 for _ in range(n)] for _ in range(m)]
        cl = classes or ("ineq", "eq", "loose", "lo", "up", "edge")
        xb = [bounds(rng, cl) for _ in range(n)]
        ab = [bounds(rng, cl) for _ in range(m)]
        if feasible:
            x = []
            for l, u in xb:
                l2, u2 = max(l, -3.0), min(u, 3.0)
                x.append(l2 if l2 >= u2 else (l2 + u2) / 2)
            for i in range(m):
                v = sum(A[i][j] * x[j] for j in range(n))
                l, u = ab[i]
                if l == u:
                    ab[i] = (v, v)
                elif not (l <= v <= u):
                    w = u - l if u - l < 1e9 else 1.0
                    ab[i] = (v - (0.25 if l > -1e9 else 1e16), v + (max(w, 0.25) if u < 1e9 else 1e16))
        p = dict(n=n, m=m, H=H, h=h, A=A, xl=[b[0] for b in xb], xu=[b[1] for b in xb], al=[b[0] for b in ab], au=[b[1] for b in ab])
        # structural zeros of the sparse variants; the diagonal of H is stored unless full_diag is off
        p["Hs"] = [[H[i][j] != 0.0 or (i == j and full_diag) or rng.random() < 0.2 for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i):
                p["Hs"][j][i] = p["Hs"][i][j]
        p["As"] = [[A[i][j] != 0.0 or rng.random() < 0.2 for j in range(n)] for i in range(m)]
        p["guess"] = rng.random() < 0.4
        p["x0"] = [dy(rng, -1, 1, 8) for _ in range(n)] if p["guess"] else [0.0] * n
        p["y0"] = [dy(rng, -1, 1, 8) for _ in range(n + m)] if p["guess"] else [0.0] * (n + m)
        return p


def tokens(p, st, reuse=0, reverse=0):
    t = [s(st["eps_abs"]), s(st["eps_rel"]), st["max_iter"], s(st["rho"]), s(st["sigma"]), s(st["alpha"]), st["check"], int(st["adaptive"]),
         st["interval"], s(st["adtol"]), reuse, int(p["guess"]), reverse]
    t += [s(p["H"][i][j]) if p["Hs"][i][j] else "." for i in range(p["n"]) for j in range(p["n"])]
    t += [s(v) for v in p["h"]]
    t += [s(p["A"][i][j]) if p["As"][i][j] else "." for i in range(p["m"]) for j in range(p["n"])]
    t += [s(v) for k in ("al", "au", "xl", "xu") for v in p[k]]
    if p["guess"]:
        t += [s(v) for v in p["x0"] + p["y0"]]
    return " ".join(str(x) for x in t)


def line(unit_name, mode, solves):
    """solves: list of (problem, settings, reuse, reverse)"""
    return "%s %s %d " % (unit_name, mode, len(solves)) + " ".join(tokens(*x) for x in solves)


def prob_record(kind, p, st, flt=False):
    f = lambda v: [s(x) for x in v]
    return dict(kind=kind, n=p["n"], m=p["m"], H=[f(r) for r in p["H"]], h=f(p["h"]), A=[f(r) for r in p["A"]], al=f(p["al"]), au=f(p["au"]), xl=f(p["xl"]), xu=f(p["xu"]),
                x0=f(p["x0"]), y0=f(p["y0"]), regul="1e-4" if flt else "1e-9",
                slack=["1e-2", "1e-4"] if flt else ["1e-5", "1e-10"],
                set=dict(eps_abs=s(st["eps_abs"]), eps_rel=s(st["eps_rel"]), max_iter=st["max_iter"], rho=s(st["rho"]), sigma=s(st["sigma"]), alpha=s(st["alpha"]),
                         check=st["check"], adaptive=bool(st["adaptive"]), interval=st["interval"], adtol=s(st["adtol"])))


def tol(flt=False):
    return (dict(x="1e-4", c="2e-6", r="1e-2", w="1e-5", k="1e-4", u="1e-6") if flt else dict(x="1e-9", c="1e-14", r="1e-6", w="1e-13", k="1e-12", u="1e-15"))


def trace_record(sid, kind, variant, p, st, rec):
    flt = variant in "fg"
    st = dict(st, max_iter=st["max_iter"] + 1)
    return dict(id=sid, prob=prob_record(kind, p, st, flt), ev=rec["ev"], tol=tol(flt), full=variant in "DS")
