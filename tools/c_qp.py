"""Checks of the QP solvers (Q01-Q06)."""
import json
import gen_qp as g
from vlib import build

ASSUME = ["Num.java computes the numerals of the specification correctly to 40 digits",
          "the linear solver handed to the QP class records faithfully what it is given",
          "iterates are compared up to a forward error bound proportional to the condition number of the KKT matrix"]


def units_of(combos):
    us = {}
    for kind, n, m, v in combos:
        nm, u = g.unit(kind, n, m, v)
        us[nm] = (u, kind, n, m, v)
    return us


def iter_scenarios(c, us, per, mk_problem, mk_settings, mode="iter", long=False):
    sc, meta = [], {}
    for nm, (u, kind, n, m, v) in us.items():
        for i in range(per if n * m < 40 else max(2, per // 6)):
            p = mk_problem(n, m, v)
            st = mk_settings(v)
            if i in (3, 20) and mode == "iter" and n * m < 40 and long:      # some long runs
                st["max_iter"] = 130
            sid = "%s-%s%d" % (nm, mode[0], i)
            meta[sid] = (kind, v, p, st)
            sc.append((sid, g.line(nm, mode, [(p, st, 0, i % 3)])))
    return sc, meta


def corrupt_iter(r, i):
    """corruption of one recorded field of an accepted trace"""
    ev = r["ev"]
    k = len(ev) // 2
    e = ev[k]
    how = i % 5
    if how == 0:
        e["x"][0] = repr(float(e["x"][0]) + 0.1 * (1 + abs(float(e["x"][0]))))
    elif how == 1:
        e["y"][0] = repr(float(e["y"][0]) + 0.5 * (1 + abs(float(e["y"][0]))))
    elif how == 2:
        e["nupd"] += 1
    elif how == 3:
        e["K"][0][0] = repr(float(e["K"][0][0]) + 0.01 + 0.1 * abs(float(e["K"][0][0])))
    else:
        e["solves"] += 1
    return r


LARGE = [("admm", 9, 12, "d"), ("box", 12, 9, "s")]


def run_iter(c, combos, per, mk_problem, mk_settings, extra=(), long=False):
    us = units_of(combos)
    exe = build([u[0] for u in us.values()])
    c.log("built %d units" % len(us))
    sc, meta = iter_scenarios(c, us, per, mk_problem, mk_settings, long=long)
    for sid, line, kind, v, p, st in extra:
        meta[sid] = (kind, v, p, st)
        sc.append((sid, line))
    out = c.run_harness(exe, sc, timeout=120)
    recs = [g.trace_record(s, *meta[s], out[s]) for s in out]
    if not recs:
        return
    rej = c.validate("AdmmTrace", recs)
    c.log("validated %d iteration traces, %d rejected" % (len(recs), len(rej)))
    c.report(rej, recs, dict(sc))
    good = [r for r in recs if r["id"] not in rej and r["id"].split("-")[2] in "dDsS" and len(r["ev"]) > 4 and float(r["prob"]["set"]["sigma"]) > 1e-2 and
            float(r["prob"]["set"]["rho"]) <= 1 and max(abs(float(v)) for e in r["ev"] for v in e["y"]) < 1e3 and all(e["nupd"] < 3 for e in r["ev"])][:5]
    if good and not rej:
        c.self_test("AdmmTrace", good, corrupt_iter)
    c.samples += [{"scenario": sc[0][1], "outcome": {k: v for k, v in recs[0]["ev"][-1].items() if k != "K"}}] if recs else []
    c.extra["iteration_events"] = c.extra.get("iteration_events", 0) + sum(len(r["ev"]) for r in recs)
    fin = {}
    for r in recs:
        fin[r["ev"][-1]["status"]] = fin.get(r["ev"][-1]["status"], 0) + 1
    c.notes.append("final statuses of the iteration traces: %s" % fin)
    return exe, us


def q01(c):
    c.assumptions += ASSUME
    c.model("MCAdmm", "MCAdmm" if c.quick else "MCAdmmDeep", workers=8, timeout=800)
    rng = c.rng
    combos = [("admm", 3, 2, "d"), ("box", 3, 2, "d"), ("admm", 3, 2, "s"), ("box", 3, 2, "s"), ("admm", 2, 3, "d"), ("box", 2, 3, "d"), ("box", 2, 0, "d"), ("box", 4, 2, "s"), ("admm", 4, 2, "d")] + LARGE
    if not c.quick:
        combos += [("admm", 3, 2, "f"), ("box", 3, 2, "f"), ("admm", 2, 1, "S"), ("box", 2, 1, "S"), ("box", 2, 3, "D"), ("admm", 2, 3, "D")]
    us = units_of(combos)
    exe = build([u[0] for u in us.values()])
    c.log("built %d units" % len(us))
    sc, meta = [], {}
    for nm, (u, kind, n, m, v) in us.items():
        for i in range((60 if c.quick else 600) // (1 if n * m < 40 else 6)):
            flt = v in "fg"
            what = rng.choice(["solved", "solved", "any", "any", "infeasible"])
            st = dict(eps_abs=rng.choice([1e-3, 1e-2] if flt else [1e-3, 1e-5, 1e-2, 1e-6]), eps_rel=rng.choice([0.0, 1e-3, 1e-2] if flt else [0.0, 1e-3, 1e-5]), max_iter=4000,
                      rho=rng.choice([0.1, 1.0, 0.5]), sigma=rng.choice([1e-2, 0.125] if flt else [1e-6, 1e-3, 1e-2]), alpha=rng.choice([1.0, 1.6, 1.4, 0.8]), check=rng.choice([1, 5, 25, 10]),
                      adaptive=rng.random() < 0.7, interval=rng.choice([10, 25, 7]), adtol=5.0)
            if what == "solved":     # strictly convex, well scaled, strictly feasible: must be solved
                p = g.problem(rng, n, m, classes=("ineq", "lo", "up", "loose", "eq"), feasible=True)
                for k in range(n):
                    p["H"][k][k] += 1.0
                    p["Hs"][k][k] = True
                st["adaptive"], st["interval"] = True, 25
                st["eps_abs"] = max(st["eps_abs"], 1e-5)
                st["rho"] = 0.1
                if flt:
                    st["eps_abs"] = st["eps_rel"] = 1e-2
            elif what == "infeasible":
                p = g.problem(rng, n, m)
                if m:
                    r = 0
                    lo = -sum(abs(x) * 2 for x in p["A"][r]) - 6.0
                    for k in range(n):
                        p["xl"][k], p["xu"][k] = -2.0, 2.0
                    p["al"][r], p["au"][r] = lo - 3.0, lo
                    st["max_iter"] = 300
                    st["eps_rel"] = 0.0
                else:
                    what = "any"
            else:
                p = g.problem(rng, n, m, feasible=rng.random() < 0.8)
                st["max_iter"] = rng.choice([500, 1500])
            sid = "%s-c%d" % (nm, i)
            meta[sid] = (kind, v, p, st, "any" if what == "solved" and (flt or m > n) else what)
            sc.append((sid, g.line(nm, "final", [(p, st, 0, i % 3)])))
    out = c.run_harness(exe, sc, timeout=120)
    recs = []
    for s in out:
        kind, v, p, st, what = meta[s]
        flt = v in "fg"
        r = dict(id=s, prob=g.prob_record(kind, p, st, flt), ev=out[s]["ev"], expect=what, tol=g.tol(flt))
        recs.append(r)
    rej = c.validate("QpCert", recs)
    c.report(rej, recs, dict(sc))
    good = [r for r in recs if r["ev"][0]["status"] == "SOLVED"]
    c.extra["solved"] = len(good)
    c.notes.append("%d of %d complete solves reported success" % (len(good), len(recs)))
    c.samples += [{"scenario": dict(sc)[r["id"]], "outcome": r["ev"][0]} for r in good[:2]]

    def corrupt(r, i):
        e = r["ev"][0]
        if i % 3 == 0:
            e["x"][0] = repr(float(e["x"][0]) + 0.3 * (1 + abs(float(e["x"][0]))))
        elif i % 3 == 1:
            e["y"][-1] = repr(float(e["y"][-1]) + 0.7 + abs(float(e["y"][-1])))
        else:
            e["iter"] += 1
        return r
    if not rej:
        c.self_test("QpCert", [r for r in good if r["id"].split("-")[2] in "ds"][:6], corrupt)
    c.log("%d complete solves, %d solved, %d rejected" % (len(recs), len(good), len(rej)))


def q02(c):
    c.assumptions += ASSUME
    c.model("MCAdmm", workers=8)
    rng = c.rng
    combos = [("admm", 3, 2, "d"), ("box", 3, 2, "d"), ("admm", 2, 3, "s"), ("box", 2, 3, "s"), ("admm", 4, 2, "D"), ("box", 4, 2, "S"), ("box", 2, 0, "d"), ("box", 3, 2, "g")] + LARGE
    if not c.quick:
        combos += [("admm", 2, 1, x) for x in "dDsSfg"] + [("box", 2, 1, x) for x in "dDsSfg"]
    run_iter(c, combos, 40 if c.quick else 400, lambda n, m, v: g.problem(rng, n, m, feasible=rng.random() < 0.5),
             lambda v: g.settings(rng, v in "fg", max_iter=rng.choice([6, 10, 14])), long=True)


def q03(c):
    c.assumptions += ASSUME
    c.model("MCAdmm", workers=8)
    rng = c.rng
    combos = [("admm", 3, 2, "d"), ("box", 3, 2, "d"), ("admm", 3, 2, "s"), ("box", 3, 2, "s"), ("admm", 2, 3, "S"), ("box", 2, 3, "D"), ("box", 2, 3, "d"), ("admm", 4, 2, "d")] + LARGE
    if not c.quick:
        combos += [("admm", 2, 1, x) for x in "dDsS"] + [("box", 2, 1, x) for x in "dDsS"] + [("admm", 3, 2, "f"), ("box", 3, 2, "f")]
    cl = ("ineq", "eq", "loose", "lo", "up", "edge", "edge", "edge")
    run_iter(c, combos, 40 if c.quick else 400, lambda n, m, v: g.problem(rng, n, m, classes=cl if v not in "fg" else cl[:5]),
             lambda v: g.settings(rng, v in "fg", max_iter=rng.choice([8, 12, 16]), adaptive=rng.random() < 0.9, interval=rng.choice([1, 2, 3, 4]), adtol=rng.choice([1.1, 1.5, 3.0, 5.0]),
                                  check=rng.choice([0, 1, 2, 3, 5]), sigma=rng.choice([1e-2, 0.0625, 1.0]), rho=rng.choice([0.125, 1.0, 0.01, 16.0, 100.0] if v not in "fg" else [0.125, 1.0])), long=True)


def q04(c):
    c.assumptions += ASSUME
    c.model("MCAdmm", workers=8)
    rng = c.rng
    combos = [("admm", 3, 2, "d"), ("box", 3, 2, "d"), ("admm", 2, 3, "s"), ("box", 2, 3, "s"), ("admm", 2, 1, "D"), ("box", 2, 1, "d"), ("box", 2, 0, "d")] + LARGE
    if not c.quick:
        combos += [("admm", 4, 2, x) for x in "dDsS"] + [("box", 4, 2, x) for x in "dDsS"]

    def st(v):
        s = g.settings(rng, v in "fg", max_iter=rng.choice([6, 13, 13, 30, 55]), check=rng.choice([0, 1, 2, 3, 4, 5, 7, 25]), eps_abs=rng.choice([1e-1, 1e-2, 1e-3, 1.0]),
                       eps_rel=rng.choice([0.0, 1e-2, 1e-3]), rho=rng.choice([0.1, 1.0, 0.5]), adaptive=rng.random() < 0.5, interval=rng.choice([2, 3, 5, 25]))
        if s["max_iter"] == 55:
            s["check"], s["interval"] = 25, 25
        return s
    run_iter(c, combos, 30 if c.quick else 300, lambda n, m, v: g.problem(rng, n, m, feasible=rng.random() < 0.8), st)


def q06(c):
    """the same problem and settings through every storage, triangle and scalar variant: all follow the one machine"""
    c.assumptions += ASSUME
    c.model("MCAdmm", workers=8)
    rng = c.rng
    dims = [(3, 2)] if c.quick else [(3, 2), (2, 3), (4, 2)]
    combos = [(k, n, m, v) for (n, m) in dims for k in ("admm", "box") for v in "dDsSfg"] + [("admm", 6, 3, "h"), ("box", 6, 3, "h")]
    pool = {}
    cnt = {}

    def prob(n, m, v):
        i = cnt.get((n, m, v), 0)
        cnt[(n, m, v)] = i + 1
        key = (n, m, v in "fg", i)
        # the two solver kinds draw one after the other: the index runs over both
        if key not in pool:
            pool[key] = (g.problem(rng, n, m, full_diag=False, feasible=rng.random() < 0.5, classes=("ineq", "eq", "loose", "lo", "up")),
                         g.settings(rng, v in "fg", max_iter=rng.choice([5, 8, 11])))
        last[0] = pool[key][1]
        return pool[key][0]
    last = [None]
    run_iter(c, combos, 20 if c.quick else 150, prob, lambda v: last[0])


def q05(c):
    c.assumptions += ASSUME
    mc = c.model("MCInstance", "MCInstanceQP" if c.quick else "MCInstanceQP4", workers=8, timeout=800)
    hists = sorted(json.loads(l.strip().strip('"')[5:]) for l in mc.out.splitlines() if "HIST " in l)
    c.extra["histories_enumerated"] = len(hists)
    rng = c.rng
    combos = [("admm", 3, 2, "d"), ("box", 3, 2, "d"), ("admm", 3, 2, "s"), ("box", 3, 2, "s"), ("admm", 3, 2, "S"), ("box", 3, 2, "S")]
    if not c.quick:
        combos += [(k, n, m, v) for k in ("admm", "box") for (n, m) in [(2, 3)] for v in "dDsSfg"]
    us = units_of(combos)
    exe = build([u[0] for u in us.values()])
    c.log("built %d units" % len(us))
    sc, meta = [], {}
    for nm, (u, kind, n, m, v) in us.items():
        # problem 2 has the pattern of problem 1, problem 3 another one
        for grp in range(2 if c.quick else 6):
            fd = grp % 2 == 0
            p1, p3 = g.problem(rng, n, m, full_diag=fd, feasible=True), g.problem(rng, n, m, full_diag=not fd)
            p2 = g.problem(rng, n, m, full_diag=fd)
            p2["Hs"], p2["As"] = p1["Hs"], p1["As"]
            for i in range(n):
                for j in range(n):
                    if not p2["Hs"][i][j]:
                        p2["H"][i][j] = 0.0
            for i in range(m):
                for j in range(n):
                    if not p2["As"][i][j]:
                        p2["A"][i][j] = 0.0
            for p in (p1, p2, p3):
                p["guess"] = False
            var = []
            for k in range(3):
                st = g.settings(rng, v in "fg", max_iter=rng.choice([30, 60]), check=rng.choice([1, 2, 5]), eps_abs=rng.choice([1e-2, 1e-3]))
                if k == 2:   # same settings as variant 1 but from a guess
                    st = dict(var[0][0])
                var.append((st, [g.dy(rng, -1, 1, 8) for _ in range(n)], [g.dy(rng, -1, 1, 8) for _ in range(n + m)]))
            hs = hists if not c.quick else rng.sample(hists, min(len(hists), 60))
            hs = hs if len(hs) <= 2000 else rng.sample(hs, 2000)
            for hi, h in enumerate(hs):
                sol, keys = [], []
                for (pi, vi, r) in h:
                    p = dict((p1, p2, p3)[pi - 1])
                    st, x0, y0 = var[vi - 1]
                    if vi == 3:
                        p["guess"], p["x0"], p["y0"] = True, x0, y0
                    sol.append((p, st, r, rng.choice([0, 1, 2])))
                    keys.append("p%dv%d" % (pi, vi))
                sid = "%s-h%d-%d" % (nm, grp, hi)
                meta[sid] = (keys, v)
                sc.append((sid, g.line(nm, "hist", sol)))
    out = c.run_harness(exe, sc, timeout=120)
    recs = []
    for s in out:
        keys, v = meta[s]
        ev = []
        for k, e in zip(keys, out[s]["fresh"]):
            ev.append(dict(key=k, fresh=True, d=[e["status"], e["istatus"], str(e["iter"]), str(e["solves"]), str(e["nupd"])], x=e["x"] + e["y"]))
        for k, e in zip(keys, out[s]["ev"]):
            ev.append(dict(key=k, fresh=False, d=[e["status"], e["istatus"], str(e["iter"]), str(e["solves"]), str(e["nupd"])], x=e["x"] + e["y"]))
        recs.append(dict(id=s, ev=ev, tol="1e-3" if v in "fg" else "1e-6"))
    rej = c.validate("InstanceTrace", recs)
    c.report(rej, recs, dict(sc))

    def corrupt(r, i):
        e = r["ev"][-1]
        if i % 2:
            e["x"][0] = repr(float(e["x"][0]) + 0.01 * (1 + abs(float(e["x"][0]))))
        else:
            e["d"][2] = str(int(e["d"][2]) + 1)
        return r
    if not rej and recs:
        c.self_test("InstanceTrace", recs[:4], corrupt)
    c.samples += [{"scenario": sc[0][1], "keys": meta[sc[0][0]][0]}]
    c.log("%d histories, %d rejected" % (len(recs), len(rej)))
