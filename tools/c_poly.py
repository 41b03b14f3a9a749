"""Checks of the polynomial bases, projections and splines (P01-P03)."""
import math
from vlib import build

ASSUME = ["Num.java computes the numerals of the specification correctly to 40 digits",
          "comparisons allow the forward rounding error of the scalar type (and of the eigenvalue root finder for the Legendre nodes)"]
EPS = {"double": 2.3e-16, "float": 1.2e-7}


def unit(fam, n, sc):
    nm = "%s%d%s" % (fam, n, sc[0])
    return nm, ("poly_unit.cpp", ["FAM=%d" % (fam == "leg"), "ORD=%d" % n, "SC=" + sc, 'NAME="%s"' % nm])


def r(x):
    return repr(float(x))


def num(rng, big=3.0):
    k = rng.random()
    if k < 0.15:
        return 0.0
    if k < 0.35:
        return float(rng.randint(-4, 4))
    return round(rng.uniform(-big, big), rng.randint(1, 8))


def poly(rng, n):
    p = [num(rng) for _ in range(n + 1)]
    if rng.random() < 0.3:
        p = [0.0] * n + [float(rng.choice([1, -2, 0.5]))]
    return "%d %s" % (n + 1, " ".join(map(r, p)))


def interval(rng):
    k = rng.random()
    if k < 0.15:
        return -1.0, 1.0
    if k < 0.3:
        return 0.0, round(rng.uniform(0.1, 3), 3)
    a = rng.uniform(-4, 3)
    return a, a + rng.uniform(0.05, 4)


def ops(rng, fam, n, kinds, count):
    o = []
    if "table" in kinds:
        o += ["table 0", "table 1", "table 2"]
    if "coefs" in kinds:
        o.append("coefs")
        for k in range(n + 1):
            o += ["basis %d %s" % (k, r(x)) for x in (1.0, -1.0, math.nextafter(1.0, 2.0), rng.uniform(-1, 1))]
        o.append("mul %s %s" % (" ".join(["0"] * (n + 1)), " ".join(r(num(rng)) for _ in range(n + 1))))
        o.append("mul %s %s" % (" ".join(r(num(rng)) for _ in range(n + 1)), " ".join(["0"] * (n + 1))))
    for _ in range(count):
        k = rng.choice([k for k in kinds if k not in ("table", "coefs")])
        top = 2 * n - 1 if fam == "leg" else n
        if k == "diff":
            o.append("diff " + poly(rng, rng.randint(0, n)))
        elif k == "integ":
            a, b = interval(rng)
            if rng.random() < 0.2:
                a, b = b, a
            o.append("integ %s %s %s %d" % (poly(rng, rng.choice([top, rng.randint(0, top), top + 2])), r(a), r(b), rng.random() < 0.2))
        elif k == "lag":
            o.append("lag %s %s" % (poly(rng, rng.randint(0, n)), r(rng.choice([rng.uniform(-1, 1), 1.0, -1.0, rng.uniform(-1.2, 1.2)]))))
        elif k in ("proj", "reproj"):
            a, b = interval(rng)
            xs = [a, b, rng.uniform(a, b), (a + b) / 2, rng.uniform(a, b)]
            o.append("%s %s %s %s 5 %s" % (k, poly(rng, rng.choice([n, n, rng.randint(0, n), n + 2])), r(a), r(b), " ".join(map(r, xs))))
        elif k == "basis":
            o.append("basis %d %s" % (rng.randint(0, n), r(rng.uniform(-1.1, 1.1))))
        else:
            o.append("%s %s %s" % (k, " ".join(r(num(rng)) for _ in range(n + 1)), " ".join(r(num(rng)) for _ in range(n + 1))))
    return o


def spectral(c, combos, kinds, traces, count):
    c.assumptions += ASSUME
    us = {}
    for f, n, s in combos:
        nm, u = unit(f, n, s)
        us[nm] = (u, f, n, s)
    exe = build([u[0] for u in us.values()])
    c.log("built %d bases" % len(us))
    sc, meta = [], {}
    for nm, (u, f, n, s) in us.items():
        for i in range(traces):
            o = ops(c.rng, f, n, kinds if i == 0 else [k for k in kinds if k not in ("table", "coefs")], count)
            sid = "%s-%d" % (nm, i)
            meta[sid] = (f, n, s)
            sc.append((sid, "%s %d %s" % (nm, len(o), " ".join(o))))
    out = c.run_harness(exe, sc)
    recs = []
    for sid, rec in out.items():
        f, n, s = meta[sid]
        # root finder: the nodes lose digits with the size of the monomial coefficients of P_N'
        amp = 1.0 if f == "cheb" else 3.0 * 2.0 ** n
        recs.append(dict(id=sid, fam=f, N=n, u=r(8 * EPS[s]), w=r(40 * EPS[s] * amp), ev=rec["ev"]))
    rej = c.validate("SpectralTrace", recs)
    c.log("validated %d traces, %d rejected" % (len(recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(x["ev"]) for x in recs)
    c.extra["bases"] = sorted(us)
    if recs:
        c.samples.append({"scenario": sc[0][1][:300], "first": {k: v for k, v in recs[0]["ev"][0].items() if k != "D"}})
    good = [x for x in recs if x["id"] not in rej and meta[x["id"]][2] == "double"]
    if good and not rej:
        def corrupt(x, i):
            # one event of a kind, with one number moved
            kinds_ = sorted({e["op"] for e in x["ev"]} - {"coefs"} if x["fam"] == "cheb" else {e["op"] for e in x["ev"]})
            k = kinds_[i % len(kinds_)]
            e = [e for e in x["ev"] if e["op"] == k][0]
            f = {"table": ["nodes", "D", "iw", "qw", "nf"][i % 5], "diff": "res", "integ": "res", "lag": "L", "proj": "coeff", "reproj": "coeff", "basis": "res", "coefs": "L", "mul": "res", "der": "res"}[k]
            def bump(v):
                return [bump(v[0])] + v[1:] if isinstance(v, list) else r(float(v) + 0.01 + 0.1 * abs(float(v)))
            e[f] = bump(e[f])
            x["ev"] = [e]
            return x
        c.self_test("SpectralTrace", [g for g in good if "-0" in g["id"]][:8], corrupt)


def p01(c):
    c.model("MCSpectral", "MCSpectralQuick" if c.quick else "MCSpectralDeep", workers=8, timeout=850)
    combos = [("cheb", n, "double") for n in (1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12)] + [("leg", n, "double") for n in (2, 3, 4, 5, 6)] + [("cheb", 4, "float"), ("leg", 3, "float")]
    if not c.quick:
        combos += [("cheb", n, "double") for n in (7, 13, 14, 15, 16)] + [("leg", n, "double") for n in (7, 8, 9)] + [("cheb", n, "float") for n in (2, 3, 5, 6, 7)] + [("leg", n, "float") for n in (2, 4, 5)]
    spectral(c, combos, ["table", "diff", "integ", "lag"], 2 if c.quick else 12, 14 if c.quick else 60)


def p02(c):
    c.model("MCSpectral", "MCSpectralQuick" if c.quick else "MCSpectralDeep", workers=8, timeout=850)
    combos = [("cheb", n, "double") for n in (1, 2, 3, 5, 8)] + [("leg", n, "double") for n in (2, 3, 4, 6)] + [("cheb", 3, "float"), ("leg", 4, "float")]
    if not c.quick:
        combos += [("cheb", n, "double") for n in (4, 6, 7, 9, 10, 11)] + [("leg", n, "double") for n in (5, 7, 8)] + [("cheb", n, "float") for n in (2, 5, 6)] + [("leg", n, "float") for n in (2, 3, 5)]
    spectral(c, combos, ["coefs", "proj", "reproj", "basis", "mul", "der"], 2 if c.quick else 12, 20 if c.quick else 60)


def p03(c):
    c.assumptions += ASSUME[:1] + ["a query within rounding of a knot may be read from either neighbouring segment"]
    exe = build([("spline_unit.cpp", [])])
    rng = c.rng
    sc = []
    for i in range(120 if c.quick else 2500):
        f = "spline-" + rng.choice("ddf")
        o = []
        k = h = None
        for j in range(rng.randint(6, 24)):
            what = "new" if j == 0 else rng.choice(["eval"] * 7 + ["coeffs", "len", "read", "new"])
            if what in ("new", "coeffs"):
                k = rng.choice([1, 1, 2, 3, 4, 5, 8])
                q = [[num(rng) for _ in range(4)] for _ in range(k)]
                style = rng.random()
                keep = rng.randrange(k)
                if style < 0.35:      # one live segment, the others poisoned
                    q = [x if a == keep else ["nan"] * 4 for a, x in enumerate(q)]
                elif style < 0.5:
                    q = [[float(a + 1), 0.0, 0.0, 0.0] for a in range(k)]
                flat = " ".join(x if isinstance(x, str) else r(x) for col in q for x in col)
                if what == "new":
                    h = rng.choice([1.0, 0.5, 0.1, 2.0, rng.uniform(0.05, 3)])
                    o.append("new %d %s %s" % (k, flat, r(h)))
                else:
                    o.append("coeffs %d %s" % (k, flat))
                live = keep if style < 0.35 else None
            elif what == "len":
                h = rng.choice([1.0, 0.25, 0.1, 3.0, rng.uniform(0.05, 3)])
                o.append("len " + r(h))
            elif what == "read":
                o.append("read")
            else:
                s = rng.choice(["in", "in", "in", "knot", "end", "beyond", "below", "start"])
                seg = live if live is not None and rng.random() < 0.8 else rng.randrange(k)
                x = {"in": (seg + rng.uniform(0.02, 0.98)) * h, "knot": seg * h, "end": k * h, "beyond": k * h + rng.choice([1e-6, 0.3, 7.5, 1e3, 1e6]) * h,
                     "below": -rng.choice([1e-6, 0.5, 3.2, 1e3, 1e6]) * h, "start": 0.0}[s]
                o.append("eval " + r(x))
        sc.append(("s%d" % i, "%s %d %s" % (f, len(o), " ".join(o))))
    out = c.run_harness(exe, sc)
    U = {"d": 8 * 2.3e-16, "f": 8 * 1.2e-7}
    kind = {s: l.split()[0][-1] for s, l in sc}
    recs = [dict(id=s, u=r(U[kind[s]]), ev=v["ev"]) for s, v in out.items()]
    # a poisoned segment reads as nan in value and derivatives: then every number must be nan
    rej = c.validate("CubicSplineTrace", recs)
    c.log("validated %d histories, %d rejected" % (len(recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(x["ev"]) for x in recs)
    if recs:
        c.samples.append({"scenario": sc[0][1][:400]})
    good = [x for x in recs if x["id"] not in rej and kind[x["id"]] == "d" and any(e["op"] == "eval" and e["v"] != "nan" for e in x["ev"])]
    if good and not rej:
        def corrupt(x, i):
            e = [e for e in x["ev"] if e["op"] == "eval" and e["v"] != "nan"][-1]
            f = ["v", "d1", "h2", "v2", "g2"][i % 5]
            def bump(v):
                return [bump(v[0])] + v[1:] if isinstance(v, list) else r(float(v) + 0.01 + 0.1 * abs(float(v)))
            e[f] = bump(e[f])
            return x
        c.self_test("CubicSplineTrace", [g for g in good if max(abs(float(e["x"])) for e in g["ev"] if e["op"] == "eval") < 50][:5], corrupt)
