-------------------------- MODULE CubicSplineTrace --------------------------
(* Conformance of recorded histories of the real spline with CubicSpline.    *)
EXTENDS CubicSpline, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev
U == Tr.u
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Mag(s, x) == NAdd("1e-300", PEval([i \in 1..4 |-> NAbs(c[s][i])], NAbs(x)))
Mag1(s, x) == NAdd("1e-300", PEval(PDeriv([i \in 1..4 |-> NAbs(c[s][i])]), NAbs(x)))
Mag2(s, x) == NAdd("1e-300", PEval(PDeriv(PDeriv([i \in 1..4 |-> NAbs(c[s][i])])), NAbs(x)))
Is(a, b, m, k) == (a = "nan" /\ b = "nan") \/ NClose(a, b, NMul(NMul(U, k), m), "0")
\* value and derivatives, plain and through both levels of automatic differentiation (seeds (3,-1), and (1,2) twice)
Evaluates(e) ==
  /\ Say("value", \E s \in Near(e.x, U) : Is(e.v, Value(s, e.x), Mag(s, e.x), "1"))
  /\ Say("first derivative", \E s \in Near(e.x, U) : Is(e.v1, Value(s, e.x), Mag(s, e.x), "1")
          /\ Is(e.d1[1], NMul("3", Slope(s, e.x)), Mag1(s, e.x), "6") /\ Is(e.d1[2], NNeg(Slope(s, e.x)), Mag1(s, e.x), "6"))
  /\ Say("second derivative", \E s \in Near(e.x, U) : Is(e.v2, Value(s, e.x), Mag(s, e.x), "1")
          /\ (\A i \in 1..2 : Is(e.g2[i], NMul(NOf(i), Slope(s, e.x)), Mag1(s, e.x), "6"))
          /\ \A i \in 1..2 : \A j \in 1..2 : Is(e.h2[i][j], NMul(NOf(i * j), Curv(s, e.x)), Mag2(s, e.x), "12"))
Step(e) == CASE e.op = "new" -> New(e.ct, e.len) [] e.op = "coeffs" -> SetCoeffs(e.ct) [] e.op = "len" -> SetLength(e.len)
             [] e.op = "eval" -> Evaluates(e) /\ Query
             [] e.op = "read" -> Say("stored data", e.ct = c /\ e.len = len) /\ Query
TInit == t \in 1..Len(Traces) /\ l = 1 /\ c = <<>> /\ len = "1"
TNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, l, svars>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
