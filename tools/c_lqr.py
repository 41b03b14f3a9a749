"""Checks of the linear-quadratic regulator: its kernels (L02) and the Riccati solution (L01)."""
import itertools
from vlib import build


def mm(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def tr(a):
    return [list(c) for c in zip(*a)]


def add(a, b, s=1.0):
    return [[x + s * y for x, y in zip(p, q)] for p, q in zip(a, b)]


def eye(n, d=1.0):
    return [[d if i == j else 0.0 for j in range(n)] for i in range(n)]


def zero(r, c):
    return [[0.0] * c for _ in range(r)]


def inv(a):
    n = len(a)
    m = [list(r) + e for r, e in zip(a, eye(n))]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(m[i][k]))
        m[k], m[p] = m[p], m[k]
        m[k] = [x / m[k][k] for x in m[k]]
        for i in range(n):
            if i != k:
                m[i] = [x - m[i][k] * y for x, y in zip(m[i], m[k])]
    return [r[n:] for r in m]


def txt(a):
    return "%d %d %s" % (len(a), len(a[0]) if a else 0, " ".join(repr(float(x)) for r in a for x in r))


def rnd(rng, r, c, s=1.0):
    return [[rng.choice([0.0, 1.0, -1.0, round(rng.uniform(-s, s), 3), round(rng.uniform(-s, s), 3)]) for _ in range(c)] for _ in range(r)]


def roots(rs):
    """coefficients c0.. of prod (x - r), monic, without the leading one"""
    p = [1.0]
    for r in rs:
        p = [a - r * b for a, b in zip([0.0] + p, p + [0.0])]
    return p[:-1]


def spd(rng, n):
    a = rnd(rng, n, n, 0.7)
    return add(mm(a, tr(a)), eye(n, rng.choice([0.5, 1.0, 2.0])))


class System:
    """x' = F x + G u, stabilisable by construction: chains of integrators with feedback, and stable modes beside them."""
    def __init__(self, rng, nc, m, ns):
        n = nc + ns
        self.n, self.m = n, m
        F, G = zero(n, n), zero(n, m)
        cut = sorted(rng.sample(range(1, nc), min(m, nc) - 1)) if nc else []
        ends = cut + [nc] if nc else []
        self.heads = [0] + cut if nc else []
        self.hyp = False      # no eigenvalue near the imaginary axis
        for k, e in enumerate(ends):
            for i in range(self.heads[k], e - 1):
                F[i][i + 1] = rng.choice([1.0, 0.8, 1.25])
            G[e - 1][k] = rng.choice([1.0, -1.0, 0.7, 1.6])
        style = rng.random()
        if len(ends) == 1 and style < 0.4:
            rs = [rng.choice([-1, 1]) * rng.choice([0.5, 0.9, 1.4, 2.0]) for _ in range(nc)]
            for i in range(nc - 1):
                F[i][i + 1] = 1.0
            for i, c in enumerate(roots(rs)):
                F[nc - 1][i] = -c
            self.hyp = True
        elif style < 0.9:
            for k, e in enumerate(ends):
                F[e - 1] = [round(rng.uniform(-1.5, 1.5), 3) if j < nc else 0.0 for j in range(n)]
        for i in range(nc, n):
            F[i][i] = -rng.choice([0.4, 1.0, 2.5])
            for j in range(i + 1, n):
                if rng.random() < 0.4:
                    w = rng.choice([0.5, 1.5])
                    F[i][j], F[j][i] = w, -w
            for j in range(nc):
                if rng.random() < 0.5:
                    F[j][i] = round(rng.uniform(-1, 1), 2)
        self.C = [[1.0 if j == h else 0.0 for j in range(n)] for h in self.heads] or [[0.0] * n]
        if rng.random() < 0.6:
            T = eye(n)
            for i in range(n):
                for j in range(n):
                    if i != j and rng.random() < 0.4:
                        T[i][j] = rng.choice([0.5, -0.5, 0.25])
                T[i][i] = 1.5
            if self._dom(T):
                Ti = inv(T)
                F, G, self.C = mm(mm(T, F), Ti), mm(T, G), mm(self.C, Ti)
        if rng.random() < 0.3:      # another unit of time
            s = rng.choice([0.1, 4.0])
            F, G = [[x * s for x in r] for r in F], [[x * s for x in r] for r in G]
        self.F, self.G = F, G

    @staticmethod
    def _dom(T):
        return all(abs(T[i][i]) > sum(abs(x) for j, x in enumerate(T[i]) if j != i) for i in range(len(T)))

    def weight(self, rng):
        """a state weight that leaves no uncontrolled behaviour unseen"""
        k = rng.random()
        if k < 0.25:
            q = mm(tr(self.C), self.C)       # the head of each chain
            return [[x * 2.0 for x in r] for r in q]
        if k < 0.4 and self.hyp:
            return zero(self.n, self.n)
        return spd(rng, self.n)


def system(rng, small):
    while True:
        nc = rng.choice([1, 2, 2, 3] + ([] if small else [4]))
        m = rng.choice([1, 1, 2, 3])
        if m > nc and rng.random() < 0.7:
            m = nc
        ns = rng.choice([0, 0, 1, 2])
        if rng.random() < 0.05:
            nc, ns = 0, 2
        if nc + ns <= (4 if small else 6):
            return System(rng, nc, m, ns)


def scaled(rng, *ms):
    s = rng.choice([1.0, 1.0, 1.0, 1e-4, 1e5])
    return [[[x * s for x in r] for r in m] for m in ms]


def ev_lqr(rng, small):
    s = system(rng, small)
    R = spd(rng, s.m)
    Q = s.weight(rng)
    N = rnd(rng, s.n, s.m, 0.8) if rng.random() < 0.5 else zero(s.n, s.m)
    check, accept = rng.random() < 0.6, 1
    if rng.random() < 0.1 and any(x for r in N for x in r):      # semidefinite, but not after eliminating the cross weight
        Q = [[-0.5 * x for x in r] for r in mm(mm(N, inv(R)), tr(N))]
        check, accept = True, 0
    elif rng.random() < 0.12:
        Q = add(spd(rng, s.n), eye(s.n, rng.choice([4.0, 8.0])), -1.0)
        Q[0][0] = -3.0
        check, accept = True, 0
    if any(x for r in N for x in r):
        Q = add(Q, mm(mm(N, inv(R)), tr(N)))
        Q = [[(Q[i][j] + Q[j][i]) / 2 for j in range(s.n)] for i in range(s.n)]
    Q, R, N = scaled(rng, Q, R, N)
    return "lqr %s %s %s %s %s %d %d" % (txt(s.F), txt(s.G), txt(Q), txt(R), txt(N), check, accept)


def ev_care(rng, small, op):
    s = system(rng, small)
    B = mm(mm(s.G, inv(spd(rng, s.m))), tr(s.G))
    B = [[(B[i][j] + B[j][i]) / 2 for j in range(s.n)] for i in range(s.n)]
    C, = scaled(rng, s.weight(rng))
    if op == "init":
        return "init %s %s" % (txt(s.F), txt(B))
    return "%s %s %s %s" % (op, txt(s.F), txt(B), txt(C)) + (" %r" % rng.choice([1.0, 2.0, 10.0]) if op == "newton" else "")


def ev_pinv(rng):
    r, c = rng.randint(1, 5), rng.randint(1, 5)
    k = rng.choice([min(r, c), min(r, c), rng.randint(0, min(r, c))])
    A = rnd(rng, r, c, 2.0) if k == min(r, c) and rng.random() < 0.5 else [[float(rng.randint(-3, 3)) for _ in range(c)] for _ in range(r)]
    if k < min(r, c):
        A = mm([[float(rng.randint(-2, 2)) for _ in range(k)] for _ in range(r)], [[float(rng.randint(-2, 2)) for _ in range(c)] for _ in range(k)]) if k else zero(r, c)
    s = rng.choice([1.0, 1.0, 2.0 ** -30, 2.0 ** 20, 2.0 ** -60])
    A = [[x * s for x in row] for row in A]
    if rng.random() < 0.2 and k == min(r, c) and r == c:
        A = [[(x if i == j else 0.0) for j, x in enumerate(row)] for i, row in enumerate(A)]
        A[0][0] = rng.choice([1e-7, 1e-9, 3e8])
        for i in range(1, r):
            A[i][i] = rng.choice([1.0, 2.0, 1e-3])
    return "pinv " + txt(A)


def ev_lyap(rng, small):
    n = rng.randint(1, 4 if small else 6)
    A = rnd(rng, n, n, 2.0)
    k = rng.random()
    if k < 0.3:      # oscillating modes
        A = zero(n, n)
        for i in range(0, n - 1, 2):
            w = rng.choice([1.0, 3.0])
            A[i][i + 1], A[i + 1][i] = w, -w
    elif k < 0.4:
        A = [[x if j >= i else 0.0 for j, x in enumerate(r)] for i, r in enumerate(A)]
    s = rng.choice([-1, 1])
    sh = max(sum(abs(x) for x in r) for r in A) + 0.5 if k > 0.15 else 0.75      # no pair of eigenvalues adds up to zero
    A = add(A, eye(n, s * sh))
    Q = rnd(rng, n, n, 2.0)
    if rng.random() < 0.5:
        Q = add(Q, tr(Q))
    A, = scaled(rng, A)
    Q, = scaled(rng, Q)
    return "lyap %s %s" % (txt(A), txt(Q))


def ev_ls(rng):
    a = rng.choice([1.0, 10.0 ** rng.uniform(-12, 8)])
    c = a * rng.choice([1.0, 10.0 ** rng.uniform(-34, 6), 10.0 ** rng.uniform(-3, 3), 0.0])
    b = rng.uniform(-0.999, 0.999) * (a * c) ** 0.5
    return "ls %r %r %r" % (a, b, c)


def run(c, kinds, count, length):
    rng = c.rng
    exe = build([("lqr_unit.cpp", [])])
    sc = []
    for i in range(count):
        ev = []
        for _ in range(length):
            op = rng.choice(kinds)
            ev.append({"lqr": lambda: ev_lqr(rng, c.quick), "pinv": lambda: ev_pinv(rng), "lyap": lambda: ev_lyap(rng, c.quick), "ls": lambda: ev_ls(rng)}.get(op, lambda: ev_care(rng, c.quick, op))())
        sc.append(("l%d" % i, "lqr %d %s" % (len(ev), " ".join(ev))))
    recs = list(c.run_harness(exe, sc).values())
    rej = c.validate("LqrTrace", recs)
    c.log("validated %d histories (%d events), %d rejected" % (len(recs), sum(len(r["ev"]) for r in recs), len(rej)))
    c.report(rej, recs, dict(sc))
    c.extra["events"] = sum(len(r["ev"]) for r in recs)
    c.samples.append({"scenario": sc[0][1][:400]})
    keys = {"pinv": "P", "lyap": "X", "ls": "t", "init": "", "care": "X", "newton": "X", "lqr": "SK"}

    def bump(v):
        big = max(abs(float(x)) for r in v for x in r)
        return [[repr(float(v[0][0]) + 0.3 * big)] + v[0][1:]] + v[1:] if big else None

    def corrupt(r, i):
        for e in r["ev"]:
            k = keys[e["op"]]
            if not k or not e.get("accept", True) or (e["op"] != kinds[i % len(kinds)] and i % 2):
                continue
            k = k[i % len(k)]
            mx = lambda m: max([abs(float(x)) for r_ in m for x in r_] + [0.0])
            # numbers that the equation pins down
            if e["op"] in ("lqr", "care", "newton") and mx(e.get("Q", e.get("C"))) > 20 or e["op"] in ("lqr", "care", "newton") and mx(e[k]) * mx(e.get("F", e.get("A"))) < 1e-2 * mx(e.get("Q", e.get("C"))) or e["op"] in ("care", "newton") and mx(e["X"]) * mx(e["B"]) < 1e-4 * mx(e["A"]) or e["op"] == "lqr" and mx(e["K"]) * mx(e["G"]) < 1e-4 * mx(e["F"]):
                continue
            e[k] = "2.5" if e["op"] == "ls" else bump(e[k])
            r["ev"] = [e]
            return r if e[k] else None
    if not rej:
        c.self_test("LqrTrace", recs[:120], corrupt)


def l01(c):
    c.assumptions += ["systems are stabilisable with margin, weights are well conditioned and leave no marginal mode unweighted", "residuals are compared relative to the terms of the Riccati equation"]
    c.model("MCRiccati", "MCRiccatiQuick" if c.quick else "MCRiccati", workers=8, timeout=800)
    if not c.quick:
        c.model("MCRiccati", "MCRiccatiBest", workers=8, timeout=800)
    run(c, ["lqr", "lqr", "lqr", "care", "newton", "init"], 150 if c.quick else 1500, 6)


def l02(c):
    c.assumptions += ["the Lyapunov operator is invertible (no two eigenvalues add up to zero)", "ranks are unambiguous: singular values are zero or well above the rounding level of the largest"]
    c.model("MCLyap", "MCLyapQuick" if c.quick else "MCLyap", workers=8, timeout=800)
    run(c, ["pinv", "lyap", "ls"], 150 if c.quick else 2500, 12)
