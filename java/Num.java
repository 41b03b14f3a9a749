// TLC module override for spec/Num.tla: decimal numerals (strings) with arithmetic at 40 significant digits.
// TLC loads a class whose name equals a module's name and replaces the operators with same-named static methods.
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import tlc2.value.IValue;

public class Num {
    static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    static final MathContext MCX = new MathContext(60, RoundingMode.HALF_EVEN);

    // ---------------------------------------------------------------- numbers
    static final class N {
        final BigDecimal v; final int sp; // sp: 0 finite, 1 +inf, -1 -inf, 2 nan
        N(BigDecimal v) { this.v = v; this.sp = 0; }
        N(int sp) { this.v = null; this.sp = sp; }
        boolean fin() { return sp == 0; }
        int sgn() { return sp == 0 ? v.signum() : (sp == 2 ? 0 : sp); }
    }
    static final N INF = new N(1), NINF = new N(-1), NAN = new N(2), ZERO = new N(BigDecimal.ZERO), ONE = new N(BigDecimal.ONE);
    static final ConcurrentHashMap<String, N> cache = new ConcurrentHashMap<>();

    static N parse(String s) {
        N r = cache.get(s);
        if (r != null) return r;
        String t = s.trim().toLowerCase();
        if (t.equals("inf") || t.equals("+inf") || t.equals("infinity")) r = INF;
        else if (t.equals("-inf") || t.equals("-infinity")) r = NINF;
        else if (t.equals("nan") || t.equals("-nan") || t.equals("+nan")) r = NAN;
        else r = new N(new BigDecimal(t));
        if (cache.size() > 200000) cache.clear();
        cache.put(s, r);
        return r;
    }
    static N num(IValue x) {
        if (x instanceof StringValue) return parse(((StringValue) x).val.toString());
        if (x instanceof IntValue) return new N(BigDecimal.valueOf(((IntValue) x).val));
        throw new RuntimeException("Num: not a numeral: " + x);
    }
    static Value str(N n) {
        if (n.sp == 1) return new StringValue("inf");
        if (n.sp == -1) return new StringValue("-inf");
        if (n.sp == 2) return new StringValue("nan");
        BigDecimal d = n.v.round(MC);
        String s = d.signum() == 0 ? "0" : d.stripTrailingZeros().toString();
        return new StringValue(s);
    }
    static N add(N a, N b) {
        if (a.sp == 2 || b.sp == 2) return NAN;
        if (!a.fin() || !b.fin()) {
            if (!a.fin() && !b.fin()) return a.sp == b.sp ? a : NAN;
            return a.fin() ? b : a;
        }
        return new N(a.v.add(b.v, MC));
    }
    static N neg(N a) { return a.fin() ? new N(a.v.negate()) : (a.sp == 2 ? NAN : (a.sp == 1 ? NINF : INF)); }
    static N sub(N a, N b) { return add(a, neg(b)); }
    static N mul(N a, N b) {
        if (a.sp == 2 || b.sp == 2) return NAN;
        if (!a.fin() || !b.fin()) { int s = a.sgn() * b.sgn(); return s == 0 ? NAN : (s > 0 ? INF : NINF); }
        return new N(a.v.multiply(b.v, MC));
    }
    static N div(N a, N b) {
        if (a.sp == 2 || b.sp == 2) return NAN;
        if (!b.fin()) return a.fin() ? ZERO : NAN;
        if (b.v.signum() == 0) { int s = a.sgn(); return s == 0 ? NAN : (s > 0 ? INF : NINF); }
        if (!a.fin()) return a.sgn() * b.sgn() > 0 ? INF : NINF;
        return new N(a.v.divide(b.v, MC));
    }
    // comparison; nan compares false with everything
    static Integer cmp(N a, N b) {
        if (a.sp == 2 || b.sp == 2) return null;
        if (a.sp == b.sp && !a.fin()) return 0;
        if (a.sp == 1 || b.sp == -1) return 1;
        if (a.sp == -1 || b.sp == 1) return -1;
        return a.v.compareTo(b.v);
    }
    static boolean leq(N a, N b) { Integer c = cmp(a, b); return c != null && c <= 0; }
    static boolean lt(N a, N b) { Integer c = cmp(a, b); return c != null && c < 0; }
    static N abs(N a) { return a.sp == 2 ? NAN : (a.sgn() < 0 ? neg(a) : a); }
    static N max(N a, N b) { if (a.sp == 2 || b.sp == 2) return NAN; return lt(a, b) ? b : a; }
    static N min(N a, N b) { if (a.sp == 2 || b.sp == 2) return NAN; return lt(b, a) ? b : a; }
    static N sqrt(N a) {
        if (a.sp == 2 || a.sgn() < 0) return NAN;
        if (!a.fin()) return INF;
        if (a.v.signum() == 0) return ZERO;
        return new N(a.v.sqrt(MC));
    }

    // ---------------------------------------------------------------- transcendental (60 digits inside)
    static BigDecimal PI_;
    static BigDecimal pi() {
        if (PI_ == null) { // Machin
            PI_ = atanInv(5).multiply(BigDecimal.valueOf(16)).subtract(atanInv(239).multiply(BigDecimal.valueOf(4)));
        }
        return PI_;
    }
    static BigDecimal atanInv(int x) {
        BigDecimal X = BigDecimal.valueOf(x), x2 = X.multiply(X), term = BigDecimal.ONE.divide(X, 80, RoundingMode.HALF_EVEN), sum = term;
        for (int k = 1; k < 200; k++) {
            term = term.divide(x2, 80, RoundingMode.HALF_EVEN);
            BigDecimal t = term.divide(BigDecimal.valueOf(2 * k + 1), 80, RoundingMode.HALF_EVEN);
            sum = (k % 2 == 1) ? sum.subtract(t) : sum.add(t);
            if (t.signum() == 0) break;
        }
        return sum;
    }
    static BigDecimal sinB(BigDecimal x) {
        BigDecimal twoPi = pi().multiply(BigDecimal.valueOf(2));
        BigDecimal k = x.divide(twoPi, 0, RoundingMode.HALF_EVEN);
        x = x.subtract(k.multiply(twoPi));
        BigDecimal t = x, s = x, x2 = x.multiply(x, MCX);
        for (int i = 1; i < 200; i++) {
            t = t.multiply(x2, MCX).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), MCX).negate();
            if (t.signum() == 0) break;
            s = s.add(t, MCX);
            if (t.abs().compareTo(new BigDecimal("1e-55")) < 0) break;
        }
        return s;
    }
    static BigDecimal cosB(BigDecimal x) { return sinB(x.add(pi().divide(BigDecimal.valueOf(2)))); }
    static BigDecimal expB(BigDecimal x) {
        int k = 0;
        BigDecimal y = x;
        while (y.abs().compareTo(BigDecimal.ONE) > 0) { y = y.divide(BigDecimal.valueOf(2)); k++; }
        BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
        MathContext m = new MathContext(80);
        for (int i = 1; i < 200; i++) {
            t = t.multiply(y, m).divide(BigDecimal.valueOf(i), m);
            s = s.add(t, m);
            if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-75")) < 0) break;
        }
        for (int i = 0; i < k; i++) s = s.multiply(s, m);
        return s;
    }

    // log by Newton on exp; asin by Newton on sin (both converge quadratically from a double start)
    static BigDecimal logB(BigDecimal x) {
        int e = x.precision() - x.scale(); BigDecimal m = x.movePointLeft(e);       // x = m * 10^e, m in [0.1, 1)
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 4; i++) y = y.add(m.multiply(expB(y.negate()), MCX).subtract(BigDecimal.ONE), MCX);
        if (e == 0) return y;
        BigDecimal t = new BigDecimal(Math.log(10));
        for (int i = 0; i < 4; i++) t = t.add(BigDecimal.TEN.multiply(expB(t.negate()), MCX).subtract(BigDecimal.ONE), MCX);
        return y.add(t.multiply(BigDecimal.valueOf(e)), MCX);
    }
    static BigDecimal asinB(BigDecimal x) {
        BigDecimal y = new BigDecimal(Math.asin(x.doubleValue()));
        for (int i = 0; i < 5; i++) y = y.subtract(sinB(y).subtract(x).divide(cosB(y), MCX), MCX);
        return y;
    }

    // ---------------------------------------------------------------- vectors
    static N[] vec(IValue x) {
        Value t = ((Value) x).toTuple();
        if (!(t instanceof TupleValue)) throw new RuntimeException("Num: not a vector: " + x);
        Value[] e = ((TupleValue) t).elems;
        N[] r = new N[e.length];
        for (int i = 0; i < e.length; i++) r[i] = num(e[i]);
        return r;
    }
    static N[][] mat(IValue x) {
        Value t = ((Value) x).toTuple();
        if (!(t instanceof TupleValue)) throw new RuntimeException("Num: not a matrix: " + x);
        Value[] e = ((TupleValue) t).elems;
        N[][] r = new N[e.length][];
        for (int i = 0; i < e.length; i++) r[i] = vec(e[i]);
        return r;
    }
    static Value tup(N[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = str(a[i]);
        return new TupleValue(e);
    }
    static Value tup(N[][] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = tup(a[i]);
        return new TupleValue(e);
    }
    static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static void same(N[] a, N[] b) { if (a.length != b.length) throw new RuntimeException("Num: lengths differ: " + a.length + " " + b.length); }

    // ---------------------------------------------------------------- operators of Num.tla
    public static Value NAdd(Value a, Value b) { return str(add(num(a), num(b))); }
    public static Value NSub(Value a, Value b) { return str(sub(num(a), num(b))); }
    public static Value NMul(Value a, Value b) { return str(mul(num(a), num(b))); }
    public static Value NDiv(Value a, Value b) { return str(div(num(a), num(b))); }
    public static Value NNeg(Value a) { return str(neg(num(a))); }
    public static Value NAbs(Value a) { return str(abs(num(a))); }
    public static Value NMax(Value a, Value b) { return str(max(num(a), num(b))); }
    public static Value NMin(Value a, Value b) { return str(min(num(a), num(b))); }
    public static Value NSqrt(Value a) { return str(sqrt(num(a))); }
    public static Value NLeq(Value a, Value b) { return bool(leq(num(a), num(b))); }
    public static Value NLt(Value a, Value b) { return bool(lt(num(a), num(b))); }
    public static Value NEq(Value a, Value b) { Integer c = cmp(num(a), num(b)); return bool(c != null && c == 0); }
    public static Value NFin(Value a) { return bool(num(a).fin()); }
    public static Value NOf(Value a) { return str(num(a)); }
    public static Value NFloor(Value a) { return IntValue.gen(num(a).v.setScale(0, RoundingMode.FLOOR).intValueExact()); }
    public static Value NSin(Value a) { return str(new N(sinB(num(a).v))); }
    public static Value NCos(Value a) { return str(new N(cosB(num(a).v))); }
    public static Value NExp(Value a) { return str(new N(expB(num(a).v))); }
    public static Value NLog(Value a) { return str(new N(logB(num(a).v))); }
    public static Value NAsin(Value a) { return str(new N(asinB(num(a).v))); }
    // cos(pi * j / n)
    public static Value NCosPi(Value j, Value n) {
        N q = new N(num(j).v.multiply(pi()).divide(num(n).v, MCX));
        BigDecimal c = cosB(q.v);
        if (c.abs().compareTo(new BigDecimal("1e-50")) < 0) c = BigDecimal.ZERO;
        return str(new N(c));
    }
    public static Value NPow(Value a, Value k) {
        int e = ((IntValue) k).val; N x = num(a), r = ONE;
        for (int i = 0; i < e; i++) r = mul(r, x);
        return str(r);
    }
    static boolean close(N a, N b, N at, N rt) {
        if (a.sp == 2 || b.sp == 2) return false;
        if (!a.fin() || !b.fin()) return a.sp == b.sp;
        BigDecimal d = a.v.subtract(b.v).abs();
        BigDecimal m = a.v.abs().max(b.v.abs());
        return d.compareTo(at.v.add(rt.v.multiply(m))) <= 0;
    }
    public static Value NClose(Value a, Value b, Value at, Value rt) { return bool(close(num(a), num(b), num(at), num(rt))); }

    public static Value VAdd(Value a, Value b) { N[] x = vec(a), y = vec(b); same(x, y); N[] r = new N[x.length]; for (int i = 0; i < r.length; i++) r[i] = add(x[i], y[i]); return tup(r); }
    public static Value VSub(Value a, Value b) { N[] x = vec(a), y = vec(b); same(x, y); N[] r = new N[x.length]; for (int i = 0; i < r.length; i++) r[i] = sub(x[i], y[i]); return tup(r); }
    public static Value VMul(Value a, Value b) { N[] x = vec(a), y = vec(b); same(x, y); N[] r = new N[x.length]; for (int i = 0; i < r.length; i++) r[i] = mul(x[i], y[i]); return tup(r); }
    public static Value VDiv(Value a, Value b) { N[] x = vec(a), y = vec(b); same(x, y); N[] r = new N[x.length]; for (int i = 0; i < r.length; i++) r[i] = div(x[i], y[i]); return tup(r); }
    public static Value VMax(Value a, Value b) { N[] x = vec(a), y = vec(b); same(x, y); N[] r = new N[x.length]; for (int i = 0; i < r.length; i++) r[i] = max(x[i], y[i]); return tup(r); }
    public static Value VMin(Value a, Value b) { N[] x = vec(a), y = vec(b); same(x, y); N[] r = new N[x.length]; for (int i = 0; i < r.length; i++) r[i] = min(x[i], y[i]); return tup(r); }
    public static Value VScale(Value c, Value a) { N k = num(c); N[] x = vec(a); N[] r = new N[x.length]; for (int i = 0; i < r.length; i++) r[i] = mul(k, x[i]); return tup(r); }
    public static Value VNeg(Value a) { N[] x = vec(a); N[] r = new N[x.length]; for (int i = 0; i < r.length; i++) r[i] = neg(x[i]); return tup(r); }
    public static Value VDot(Value a, Value b) { N[] x = vec(a), y = vec(b); same(x, y); return str(dot(x, y)); }
    static N dot(N[] x, N[] y) { N s = ZERO; for (int i = 0; i < x.length; i++) s = add(s, mul(x[i], y[i])); return s; }
    public static Value VSum(Value a) { N s = ZERO; for (N x : vec(a)) s = add(s, x); return str(s); }
    public static Value VNorm1(Value a) { N s = ZERO; for (N x : vec(a)) s = add(s, abs(x)); return str(s); }
    public static Value VNormInf(Value a) { N s = ZERO; for (N x : vec(a)) s = max(s, abs(x)); return str(s); }
    public static Value VMaxCoeff(Value a) { N s = NINF; for (N x : vec(a)) s = max(s, x); return str(s); }
    public static Value VFin(Value a) { for (N x : vec(a)) if (!x.fin()) return BoolValue.ValFalse; return BoolValue.ValTrue; }
    public static Value VConst(Value n, Value c) { N[] r = new N[((IntValue) n).val]; for (int i = 0; i < r.length; i++) r[i] = num(c); return tup(r); }
    public static Value VClose(Value a, Value b, Value at, Value rt) {
        N[] x = vec(a), y = vec(b); if (x.length != y.length) return BoolValue.ValFalse;
        N A = num(at), R = num(rt);
        for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], A, R)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    public static Value MClose(Value a, Value b, Value at, Value rt) {
        N[][] x = mat(a), y = mat(b); if (x.length != y.length) return BoolValue.ValFalse;
        N A = num(at), R = num(rt);
        for (int i = 0; i < x.length; i++) {
            if (x[i].length != y[i].length) return BoolValue.ValFalse;
            for (int j = 0; j < x[i].length; j++) if (!close(x[i][j], y[i][j], A, R)) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
    // matrices: sequences of rows; a matrix with no rows needs the column count given
    public static Value MVec(Value m, Value a) { N[][] A = mat(m); N[] x = vec(a); N[] r = new N[A.length]; for (int i = 0; i < r.length; i++) { same(A[i], x); r[i] = dot(A[i], x); } return tup(r); }
    // transpose(M) * y with n columns
    public static Value MTVec(Value n, Value m, Value a) {
        int c = ((IntValue) n).val; N[][] A = mat(m); N[] y = vec(a); N[] r = new N[c];
        for (int j = 0; j < c; j++) { N s = ZERO; for (int i = 0; i < A.length; i++) s = add(s, mul(A[i][j], y[i])); r[j] = s; }
        return tup(r);
    }
    public static Value MMul(Value a, Value b) {
        N[][] A = mat(a), B = mat(b); int p = B.length == 0 ? 0 : B[0].length; N[][] R = new N[A.length][p];
        for (int i = 0; i < A.length; i++) for (int j = 0; j < p; j++) { N s = ZERO; for (int k = 0; k < B.length; k++) s = add(s, mul(A[i][k], B[k][j])); R[i][j] = s; }
        return tup(R);
    }
    public static Value MTr(Value a) { N[][] A = mat(a); int p = A.length == 0 ? 0 : A[0].length; N[][] R = new N[p][A.length]; for (int i = 0; i < A.length; i++) for (int j = 0; j < p; j++) R[j][i] = A[i][j]; return tup(R); }
    public static Value MAdd(Value a, Value b) { N[][] A = mat(a), B = mat(b); N[][] R = new N[A.length][]; for (int i = 0; i < A.length; i++) { same(A[i], B[i]); R[i] = new N[A[i].length]; for (int j = 0; j < A[i].length; j++) R[i][j] = add(A[i][j], B[i][j]); } return tup(R); }
    public static Value MScale(Value c, Value a) { N k = num(c); N[][] A = mat(a); for (N[] row : A) for (int j = 0; j < row.length; j++) row[j] = mul(k, row[j]); return tup(A); }
    public static Value VOuter(Value a, Value b) { N[] x = vec(a), y = vec(b); N[][] R = new N[x.length][y.length]; for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) R[i][j] = mul(x[i], y[j]); return tup(R); }
    public static Value MNormMax(Value a) { N s = ZERO; for (N[] r : mat(a)) for (N x : r) s = max(s, abs(x)); return str(s); }
    // solve K x = b (Gaussian elimination with partial pivoting); empty tuple when singular
    public static Value MSolve(Value k, Value b) {
        N[][] A = mat(k); N[] y = vec(b); int n = y.length;
        BigDecimal[][] M = new BigDecimal[n][n + 1];
        for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) M[i][j] = A[i][j].v; M[i][n] = y[i].v; }
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c + 1; i < n; i++) if (M[i][c].abs().compareTo(M[p][c].abs()) > 0) p = i;
            if (M[p][c].signum() == 0) return new TupleValue(new Value[0]);
            BigDecimal[] t = M[p]; M[p] = M[c]; M[c] = t;
            for (int i = c + 1; i < n; i++) {
                if (M[i][c].signum() == 0) continue;
                BigDecimal f = M[i][c].divide(M[c][c], MCX);
                for (int j = c; j <= n; j++) M[i][j] = M[i][j].subtract(f.multiply(M[c][j], MCX), MCX);
            }
        }
        N[] x = new N[n];
        for (int i = n - 1; i >= 0; i--) {
            BigDecimal s = M[i][n];
            for (int j = i + 1; j < n; j++) s = s.subtract(M[i][j].multiply(x[j].v, MCX), MCX);
            x[i] = new N(s.divide(M[i][i], MCX));
        }
        return tup(x);
    }
    // positive definiteness by LDL' pivots (exact arithmetic at 60 digits); arg: symmetric matrix, pivot floor
    public static Value MPosDef(Value a, Value floor) {
        N[][] A = mat(a); int n = A.length; BigDecimal f = num(floor).v;
        BigDecimal[][] M = new BigDecimal[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (!A[i][j].fin()) return BoolValue.ValFalse; M[i][j] = A[i][j].v; }
        for (int c = 0; c < n; c++) {
            if (M[c][c].compareTo(f) <= 0) return BoolValue.ValFalse;
            for (int i = c + 1; i < n; i++) { BigDecimal q = M[i][c].divide(M[c][c], MCX); for (int j = c; j < n; j++) M[i][j] = M[i][j].subtract(q.multiply(M[c][j], MCX), MCX); }
        }
        return BoolValue.ValTrue;
    }
    // infinity-norm condition number of a square matrix (double precision is ample here); "inf" when singular
    public static Value MCond(Value a) {
        N[][] A = mat(a); int n = A.length; double[][] M = new double[n][2 * n]; double na = 0;
        for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) { M[i][j] = A[i][j].v.doubleValue(); r += Math.abs(M[i][j]); } M[i][n + i] = 1; na = Math.max(na, r); }
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c + 1; i < n; i++) if (Math.abs(M[i][c]) > Math.abs(M[p][c])) p = i;
            if (M[p][c] == 0) return str(INF);
            double[] t = M[p]; M[p] = M[c]; M[c] = t;
            for (int i = 0; i < n; i++) { if (i == c || M[i][c] == 0) continue; double f = M[i][c] / M[c][c]; for (int j = 0; j < 2 * n; j++) M[i][j] -= f * M[c][j]; }
        }
        double ni = 0;
        for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) r += Math.abs(M[i][n + j] / M[i][i]); ni = Math.max(ni, r); }
        return Double.isFinite(na * ni) ? str(new N(new BigDecimal(na * ni))) : str(INF);
    }
    // force evaluation of a (possibly lazy) function/sequence value
    public static Value Eager(Value a) { return force(a); }
    static Value force(Value a) {
        Value t = a.toTuple();
        if (t instanceof TupleValue) { Value[] e = ((TupleValue) t).elems; Value[] r = new Value[e.length]; for (int i = 0; i < e.length; i++) r[i] = force(e[i]); return new TupleValue(r); }
        return a;
    }
    // multivariate polynomials: sequences of [c |-> numeral, e |-> sequence of naturals]
    public static Value PolyEval(Value p, Value pt) {
        N[] x = vec(pt); Value[] ms = ((TupleValue) p.toTuple()).elems; N s = ZERO;
        for (Value m : ms) s = add(s, mono((RecordValue) m.toRcd(), x));
        return str(s);
    }
    static N mono(RecordValue m, N[] x) {
        N t = num(m.select(C_)); Value[] e = ((TupleValue) m.select(E_).toTuple()).elems;
        for (int i = 0; i < e.length; i++) { int k = ((IntValue) e[i]).val; for (int j = 0; j < k; j++) t = mul(t, x[i]); }
        return t;
    }
    static final StringValue C_ = new StringValue("c"), E_ = new StringValue("e");
}
