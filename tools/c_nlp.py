"""Check of the derivatives of user-supplied nonlinear programs (D01)."""
import json
from vlib import build
import gen_prog

OPS = ["cost", "cg", "cgh", "con", "eq", "ineq", "conl", "eql", "ineql", "lag", "lg", "lgj", "lgh", "lghs"]


def unit(nx, ne, ni, np, sc):
    nm = "nlp_%d_%d_%d_%d_%s" % (nx, ne, ni, np, sc[0])
    return nm, ("nlp_unit.cpp", ["CLS=Class_" + nm, "NX_=%d" % nx, "NE_=%d" % ne, "NI_=%d" % ni, "NP_=%d" % np, "SC=" + sc, 'NAME="%s"' % nm])


def d01(c):
    rng = c.rng
    c.model("MCJet", "MCJetQuick" if c.quick else "MCJet", workers=8, timeout=850)
    c.assumptions += ["Num.java computes the numerals of the specification correctly to 40 digits",
                      "values are compared within a forward error bound proportional to the largest jet entry of the program; programs stay away from kinks and poles"]
    combos = [(3, 2, 1, 1, "double"), (2, 0, 0, 0, "double"), (1, 1, 0, 2, "double"), (4, 1, 3, 0, "double"), (2, 0, 2, 1, "float"), (3, 3, 0, 0, "double"), (8, 3, 2, 1, "double")]
    if not c.quick:
        combos += [(6, 2, 2, 2, "double"), (1, 0, 1, 1, "double"), (5, 0, 4, 3, "double"), (2, 2, 2, 0, "float"), (4, 4, 1, 1, "float"), (10, 2, 5, 2, "double")]
    us = [unit(*x) for x in combos]
    exe = build([u for _, u in us])
    c.log("built %d problem shapes" % len(us))
    sc, meta = [], {}
    for (nx, ne, ni, np, S), (nm, _) in zip(combos, us):
        for i in range(8 if c.quick else 150):
            pts = [[round(rng.uniform(-2, 2), 4) for _ in range(nx + np)] for _ in range(rng.randint(2, 4))]
            if rng.random() < 0.3:
                pts[0] = [0.0] * (nx + np)
            prog = gen_prog.program(rng, nx + np, pts, rng.randint(4, 16), gen_prog.ALL if rng.random() < 0.8 else gen_prog.POLY)
            n = nx + np + len(prog)
            ops = [o for o in OPS if not (o in ("eq", "eql") and ne == 0) and not (o in ("ineq", "ineql") and ni == 0) and not (o == "con" and ne + ni == 0)]
            out = lambda: rng.choice([n, rng.randint(1, n), rng.randint(max(1, n - 6), n)])
            consts = [nx + np + k + 1 for k, q in enumerate(prog) if q[0] == "const"]
            outs = [rng.choice(consts) if consts and rng.random() < 0.3 else out() for _ in range(1 + ne + ni)]
            todo = ops[:]
            rng.shuffle(todo)
            todo += [rng.choice(ops) for _ in range(6)]
            ev = []
            for o in todo:
                p = rng.choice(pts)
                lam = [rng.choice([0.0, 1.0, round(rng.uniform(-3, 3), 3)]) for _ in range(ne + ni + nx)]
                ev.append("%s %s %s %r %r" % (o, " ".join(map(repr, p)), " ".join(map(repr, lam)), rng.choice([1.0, 0.0, 2.5, -0.7]), rng.choice([0.0, 7.5, -3.0, 1e3])))
            sid = "%s-%d" % (nm, i)
            meta[sid] = S
            sc.append((sid, "%s %s %s %d %s" % (nm, gen_prog.tokens(prog), " ".join(map(str, outs)), len(ev), " ".join(ev))))
    out = c.run_harness(exe, sc)
    recs = [dict(id=s, u="1e-12" if meta[s] == "double" else "3e-4", P=v["P"], ev=v["ev"]) for s, v in out.items()]
    rej = c.validate("NlpTrace", recs)
    c.log("validated %d histories (%d evaluations), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(x["ev"]) for x in recs)
    if recs:
        c.samples.append({"scenario": sc[0][1][:400]})
    good = [r for r in recs if r["id"] not in rej and meta[r["id"]] == "double"]
    if good and not rej:
        def corrupt(x, i):
            want = ["f", "g", "h", "j", "lg", "c"][i % 6]
            for e in x["ev"]:
                if e.get(want):
                    def bump(v):
                        return [bump(v[0])] + v[1:] if isinstance(v, list) else repr(float(v) + 0.01 + 0.1 * abs(float(v)))
                    e[want] = bump(e[want])
                    x["ev"] = [e]
                    return x
        c.self_test("NlpTrace", [g for g in good if max(abs(float(v)) for e in g["ev"] for v in e["x"]) < 3][:24], corrupt)
