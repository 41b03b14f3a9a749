"""Check of the automatic differentiation scalar (A01)."""
from vlib import build
import c_ocp, gen_prog

KINDS = {0: "fixed", 1: "dynamic", 2: "float", 3: "nested"}


def a01(c):
    rng = c.rng
    c.model("MCJet", "MCAutoDiff", workers=8, timeout=850)
    if not c.quick:
        c.model("MCJet", "MCAutoDiffDeep", workers=8, timeout=600)
    c.assumptions += ["Num.java computes the numerals of the specification correctly to 40 digits",
                      "values are compared within a forward error bound proportional to the largest jet entry of the program; programs stay away from kinks and poles"]
    dims = [(0, 1), (0, 3), (1, 2), (2, 2), (3, 2), (3, 3)] + ([] if c.quick else [(0, 6), (1, 5), (2, 4), (3, 1), (3, 5)])
    nm = lambda k, n: "ad_%s_%d" % (KINDS[k], n)
    exe = build([("ad_unit.cpp", ["KIND=%d" % k, "N_=%d" % n, 'NAME="%s"' % nm(k, n)]) for k, n in dims])
    c.log("built %d scalar types" % len(dims))
    sc, kind = [], {}
    fl = lambda v: " ".join(map(repr, v))
    for k, n in dims:
        for i in range(30 if c.quick else 250):
            ops = gen_prog.ALL + gen_prog.EXT * 2
            if k == 3:
                ops = [o for o in ops if o not in ("pow", "powx")]
            if k == 1:
                ops = [o for o in ops if o not in ("iexpr", "self") and o not in (("mix", "hyp", "atan2") if i % 2 else ("const", "minc", "maxc", "cmin", "cmax"))]   # no empty derivatives in nested expressions
            pts = [[round(rng.uniform(-2, 2), 4) for _ in range(n)] for _ in range(3)]
            prog = gen_prog.program(rng, n, pts, rng.randint(4, 14), ops)
            ev = []
            for _ in range(5 if c.quick else 8):
                x = rng.choice(pts)
                what = rng.choice(["run", "run", "lin", "cmp", "cmp", "rbf"] if k != 1 else ["run", "cmp"])
                t = "%s %s" % (what, fl(x))
                at = "%s %r" % (" ".join(str(rng.randrange(999)) for _ in range(n)), rng.choice([0.5, -2.0, 1.25, 1.0]))
                if what == "lin":
                    t += " %s %s" % (at, fl([rng.choice([0.0, 1.0, round(rng.uniform(-2, 2), 3)]) for _ in range(n + n * n)]))
                elif what == "cmp":
                    t += " %s %d %d" % (at, rng.random() < 0.7, rng.random() < 0.7)
                elif what == "rbf":
                    t += " %s %s" % (fl([round(rng.uniform(-1.5, 1.5), 3) for _ in range(n)]), " ".join(str(int(rng.random() < 0.6)) for _ in range(n)))
                ev.append(t)
            sid = "%s-%d" % (nm(k, n), i)
            kind[sid] = k
            sc.append((sid, "%s %s %d %s" % (nm(k, n), gen_prog.tokens(prog), len(ev), " ".join(ev))))
    out = c.run_harness(exe, sc)
    recs = [dict(v, u="3e-4" if kind[s] == 2 else "1e-12") for s, v in out.items()]
    rej = c.validate("AutoDiffTrace", recs)
    c.log("validated %d histories (%d computations), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(r["ev"]) for r in recs)
    c.samples.append({"scenario": sc[0][1][:400]})
    good = [r for r in recs if r["id"] not in rej and kind[r["id"]] in (0, 3)]
    if good and not rej:
        def corrupt(x, i):
            for k in range(4):
                w = ["run", "lin", "cmp", "rbf"][(i + k) % 4]
                hit = [e for e in x["ev"] if e["op"] == w]
                if not hit:
                    continue
                e = hit[-1]
                if w == "cmp":
                    e["r"][i % 18] = not e["r"][i % 18]
                elif w == "run":
                    j = e["r"][-1]
                    f = [q for q in ("v", "g", "h", "g2") if q in j][i % (4 if x["nested"] else 2)]
                    j[f] = c_ocp.bump(j[f])
                elif w == "lin":
                    e["q"]["g"] = c_ocp.bump(e["q"]["g"])
                else:
                    e["r"]["g"] = c_ocp.bump(e["r"]["g"])
                return x
        c.self_test("AutoDiffTrace", good[:24], corrupt)
