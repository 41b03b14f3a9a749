----------------------------- MODULE CubicSpline ----------------------------
(* The equidistant cubic spline: a table of cubic polynomials, one column    *)
(* per segment, and a segment length, both assignable at any time.  A query  *)
(* belongs to the segment containing it, to the first below the spline and   *)
(* to the last beyond it.                                                    *)
EXTENDS Spectral
VARIABLES c, len
svars == <<c, len>>
Segs == Len(c)
\* the segments a query may be read from: at a knot rounding may choose either neighbour
Clip(i) == IF i < 0 THEN 0 ELSE IF i > Segs - 1 THEN Segs - 1 ELSE i
Near(x, u) == LET r == NDiv(x, len)  m == NMul(u, NAdd("1", NAbs(r)))
              IN {1 + Clip(NFloor(NSub(r, m))), 1 + Clip(NFloor(NAdd(r, m)))}
Value(s, x) == PEval(c[s], x)
Slope(s, x) == PEval(PDeriv(c[s]), x)
Curv(s, x) == PEval(PDeriv(PDeriv(c[s])), x)
New(k, h) == c' = k /\ len' = h
SetCoeffs(k) == c' = k /\ UNCHANGED len
SetLength(h) == len' = h /\ UNCHANGED c
Query == UNCHANGED svars
=============================================================================
