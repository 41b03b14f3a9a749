---------------------------- MODULE AutoDiffTrace ----------------------------
(* Conformance of recorded computations with the real AutoDiffScalar.        *)
EXTENDS AutoDiff, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev
N == Tr.n
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
JClose(a, e, T) == /\ NClose(a.v, e.v, T, Tr.u) /\ VClose(a.g, e.g, T, Tr.u)
                   /\ (Tr.nested => VClose(a.g2, e.g, T, Tr.u) /\ MClose(a.h, e.h, T, Tr.u))
Match(e) ==
  LET r == Run(Tr.P, e.x, <<>>)
      m == Mag(r, 1)
      T == NMul(Tr.u, m)
      J(what, a, b, tol) == Say(what, JClose(a, b, tol))
      Js(what, a, b, tol) == Say(what, Len(a) = Len(b) /\ \A i \in 1..Len(a) : JClose(a[i], b[i], tol))
  IN CASE e.op = "run" -> Say("registers", Len(e.r) = Len(r)) /\ \A i \in 1..Len(r) : J(<<"register", i, IF i > N THEN Tr.P[i - N].o ELSE "x">>, e.r[i], r[i], T)
       [] e.op = "cmp" -> Say("comparison", e.r = Compare(e.a, e.b) \o Compare(e.a, e.k) \o Compare(e.k, e.a))
       [] e.op = "lin" ->
            IF Tr.dyn THEN TRUE ELSE
            LET v == Eager([i \in 1..N |-> r[e.at[i]]])
                big == NMul(NMul(Tr.u, "64"), NPow(NAdd(m, NAdd(MNormMax(e.M), NAdd(VNormInf(e.w), NAbs(e.c)))), 3))
                bigp == NMul(Tr.u, NMul("64", NPow(NAdd("1", m), N + 1)))
                Mv == Eager(MatVec(N, e.M, v)) IN
            /\ Js("matrix times vector", e.Mv, Mv, big) /\ Js("transposed matrix times vector", e.Mtv, MatVec(N, Transposed(e.M), v), big)
            /\ Js("vector times number", e.vc, [i \in 1..N |-> JScale(e.c, v[i])], big) /\ Js("vector over number", e.vdc, [i \in 1..N |-> JScale(NDiv("1", e.c), v[i])], big)
            /\ Js("vector plus numbers", e.vpw, [i \in 1..N |-> JAdd(v[i], JConst(N, e.w[i]))], big) /\ Js("entrywise product", e.vMv, Had(v, Mv), big)
            /\ J("dot product", e.wv, Dot(N, e.w, v), big) /\ J("squared norm", e.vv, JSum(N, Had(v, v)), big) /\ J("sum", e.sum, JSum(N, v), big)
            /\ J("quadratic form", e.q, JSum(N, Had(v, Mv)), big) /\ J("product", e.prod, JProd(v), bigp)
       [] e.op = "rbf" ->
            IF Tr.dyn THEN TRUE ELSE
            LET z == Eager([i \in 1..N |-> [v |-> e.z[i].v, g |-> e.z[i].g, h |-> IF Tr.nested THEN e.z[i].h ELSE ZeroMat(N)]])
                k == Kernel(N, z, e.y)
                big == NMul(NMul(Tr.u, "64"), NPow(NAdd(Mag(z, 1), VNormInf(e.y)), 4)) IN
            J("kernel", e.r, k, big) /\ Say("kernel of numbers", NClose(e.p, k.v, big, Tr.u))
TInit == t \in 1..Len(Traces) /\ l = 1
TNext == l <= Len(Ev) /\ Match(Ev[l]) /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, l>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
