-------------------------- MODULE QuasiNewtonTrace --------------------------
(* Conformance of recorded sequences of quasi-Newton updates.  Every update  *)
(* must be the one of QuasiNewton within rounding, and (independently of the *)
(* formulas) keep symmetry, satisfy the secant equation and, for the damped  *)
(* update of a positive definite matrix, keep definiteness.                  *)
EXTENDS QuasiNewton, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, H
Tr == Traces[t]
Ev == Tr.ev[l]
u == Tr.u
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Init == t \in 1..Len(Traces) /\ l = 1 /\ H = Traces[t].ev[1].H0
Sym(m, tol) == \A i \in 1..Len(m) : \A j \in 1..Len(m) : NClose(m[i][j], m[j][i], tol, u)
Zero(v) == \A i \in 1..Len(v) : NEq(v[i], "0")
\* smallest matrix scale that definiteness can be decided on
Bfgs(s, y, H1) ==
  LET v == Eager(MVec(H, s))  r == Eager(Damped(s, y, v))  e == UpdErr(H, s, r, v, y, "0", "0", u)
      clear == NLt(NAdd(Tr.eps, NMul("2", e.er)), e.sr) /\ NLt(NMul("2", e.ev), e.sv) /\ NLeq(e.mat, NMul("1e-2", NAdd("1", e.big)))
      margin == NMul(NMul(NOf(4 * Len(s)), NAdd(e.mat, NMul(u, e.big))), "1")
  IN /\ Say("damped update", DampedUpdateOk(H, H1, s, y, "0", "0", u, Tr.eps))
     /\ Say("symmetry", Sym(H1, NAdd(e.mat, NMul(u, MNormMax(H)))))
     /\ clear => Say("secant equation", VClose(MVec(H1, s), r, NMul(NOf(Len(s)), NAdd(NMul(e.mat, VNormInf(s)), NMul(u, VNormInf(r)))), u))
     \* the exact update is definite by enough to survive the rounding
     /\ (clear /\ MPosDef(RankTwo(H, s, r, v), margin)) => Say("definite", MPosDef(H1, "0"))
     /\ Zero(s) => Say("null step", MClose(H1, H, "0", "0"))
Sr1(s, y, H1) ==
  LET w == Eager(VSub(y, MVec(H, s)))  e == Rank1Err(H, s, w, y, u) IN
  /\ Say("rank-one update", Sr1UpdateOk(H, H1, s, y, u))
  /\ Say("symmetry", Sym(H1, NAdd(e.mat, NMul(u, MNormMax(H)))))
Next == /\ l <= Len(Tr.ev)
        /\ UNCHANGED t
        /\ Say("matrix between updates", MClose(H, Ev.H0, "0", "0"))
        /\ Say("finite", \A i \in 1..Len(Ev.H1) : VFin(Ev.H1[i]))
        /\ Say("entries around the matrix", Tr.around)
        /\ IF Ev.op = "bfgs" THEN Bfgs(Ev.s, Ev.y, Ev.H1) ELSE Sr1(Ev.s, Ev.y, Ev.H1)
        /\ H' = Ev.H1
        /\ l' = l + 1
TSpec == Init /\ [][Next]_<<t, l, H>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
