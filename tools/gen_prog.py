"""Random straight-line programs (spec/Jet.tla) that stay in a benign range at the given points."""
import math

UNARY = ["neg", "sq", "abs", "abs2", "sin", "cos", "tan", "exp", "log", "sqrt", "sinh", "cosh", "tanh", "asin", "acos"]
WITHC = ["addc", "cadd", "subc", "csub", "mulc", "cmul", "divc", "cdiv"]
BINARY = ["add", "sub", "mul", "div", "min", "max", "acc"]
FUSED = ["mix", "hyp"]
# further operations of the AutoDiff scalar (harness/ad_unit.cpp)
EXTU = ["floor", "self"]
EXTC = ["pow", "powx", "minc", "maxc", "cmin", "cmax", "iaddc", "isubc", "imulc", "idivc"]
EXTB = ["dmin", "dmax", "atan2", "iadd", "isub", "imul", "idiv", "real"]
EXTF = ["iexpr"]
EXT = EXTU + EXTC + EXTB + EXTF
ALL = UNARY + WITHC + BINARY + FUSED + ["const"]
POLY = ["neg", "sq", "addc", "csub", "mulc", "cmul", "add", "sub", "mul", "acc", "const"]


def f(i, r):
    o, a, b, c = i
    A = r[a - 1] if a else 0.0
    B = r[b - 1] if b else 0.0
    if o in ("div",) and abs(B) < 0.4 or o == "cdiv" and abs(A) < 0.4 or o == "log" and A < 0.3 or o == "sqrt" and A < 0.3 or o in ("asin", "acos") and abs(A) > 0.7 \
            or o == "tan" and abs(math.cos(A)) < 0.5 or o == "abs" and abs(A) < 0.05 or o in ("min", "max", "dmin", "dmax") and abs(A - B) < 0.05 or o in ("exp", "sinh", "cosh") and abs(A) > 1.6 \
            or o == "floor" and abs(A - round(A)) < 0.05 or o == "pow" and (A < 0.3 and (c < 0 or c != int(c)) or A < -4) or o in ("minc", "maxc", "cmin", "cmax") and abs(A - c) < 0.05 \
            or o == "idiv" and abs(B) < 0.4 or o == "atan2" and (A * A + B * B < 0.3 or B < 0.05 and abs(A) < 0.05 or a == b) or o == "powx" and c + A * A < 0.3 \
            or o == "mix" and abs(c + A * A) < 0.4 or o == "hyp" and A * A + B * B + c < 0.3 or o in ("asin", "acos", "sqrt", "abs", "min", "max") and a == b:
        raise ValueError
    return {"const": lambda: c, "add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "div": lambda: A / B, "addc": lambda: A + c, "cadd": lambda: A + c,
            "subc": lambda: A - c, "csub": lambda: c - A, "mulc": lambda: A * c, "cmul": lambda: A * c, "divc": lambda: A / c, "cdiv": lambda: c / A, "neg": lambda: -A,
            "sq": lambda: A * A, "abs": lambda: abs(A), "abs2": lambda: A * A, "sin": lambda: math.sin(A), "cos": lambda: math.cos(A), "tan": lambda: math.tan(A),
            "exp": lambda: math.exp(A), "log": lambda: math.log(A), "sqrt": lambda: math.sqrt(A), "sinh": lambda: math.sinh(A), "cosh": lambda: math.cosh(A),
            "tanh": lambda: math.tanh(A), "asin": lambda: math.asin(A), "acos": lambda: math.acos(A), "min": lambda: min(A, B), "max": lambda: max(A, B),
            "floor": lambda: float(math.floor(A)), "self": lambda: (A * A + A) ** 2, "pow": lambda: A ** c, "powx": lambda: (A * A + c) ** c, "minc": lambda: min(A, c), "cmin": lambda: min(A, c),
            "maxc": lambda: max(A, c), "cmax": lambda: max(A, c), "iaddc": lambda: A + c, "isubc": lambda: A - c, "imulc": lambda: A * c, "idivc": lambda: A / c, "atan2": lambda: math.atan2(A, B),
            "iadd": lambda: A + B, "dmin": lambda: min(A, B), "dmax": lambda: max(A, B), "real": lambda: A + B, "isub": lambda: A - B, "imul": lambda: A * B, "idiv": lambda: A / B, "iexpr": lambda: (A + A * B - B * c) * (A + B),
            "acc": lambda: A * B + A - B, "mix": lambda: A * math.sin(B) + c * (B - A * A) - B / (c + A * A), "hyp": lambda: math.sqrt(A * A + B * B + c)}[o]()


def program(rng, base, points, length, ops=ALL, big=6.0, distinct=None):
    """points: list of starting register lists. Returns instructions [(o, a, b, c)]. Every base register is used early."""
    regs = [list(p) for p in points]
    prog = []
    todo = list(range(1, base + 1))
    rng.shuffle(todo)
    tries = 0
    while len(prog) < length and tries < 4000:
        tries += 1
        o = rng.choice(ops)
        n = base + len(prog)
        if n == 0:
            o = "const"
        pick = lambda: todo[0] if todo and rng.random() < 0.6 else (rng.randint(1, n) if rng.random() < 0.5 else rng.randint(max(1, n - 5), n))
        a = 0 if o == "const" else pick()
        b = pick() if o in BINARY + FUSED or o in EXTB + EXTF else 0
        c = 0.0
        if o in WITHC + FUSED + ["const"] or o in EXTC + EXTF:
            c = rng.choice([1.0, 2.0, 0.5, round(rng.uniform(0.5, 2.5), 3), -1.0 if o not in FUSED else 1.5])
        i = (o, a, b, c)
        if o in ("min", "max") and distinct is False:
            continue
        try:
            v = [f(i, r) for r in regs]
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if any(abs(x) > big or x != x for x in v):
            continue
        prog.append(i)
        todo = [t for t in todo if t not in (a, b)]
        for r, x in zip(regs, v):
            r.append(x)
    return prog


def tokens(prog):
    return "%d %s" % (len(prog), " ".join("%s %d %d %r" % i for i in prog))
