------------------------------ MODULE QpCert ------------------------------
(* Outcomes of complete solves (any number of iterations) against the part   *)
(* of Admm that does not depend on the iterates: certificate, status,        *)
(* schedule and iteration count.                                             *)
EXTENDS Admm, Json, IOUtils
Records == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, ok
R == Records[t]
e == R.ev[1]
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", R.id, 1, what>>) /\ FALSE

CInit == /\ t \in 1..Len(Records) /\ ok = FALSE /\ StartWith(Records[t].prob)
\* the unobserved copies differ from A x and x by at most the primal residual
ScaleUp == NAdd(NMax(VNormInf(MVec(prob.A, e.x)), VNormInf(e.x)), e.resP)
EpsP == Up(NAdd(S.eps_abs, NMul(S.eps_rel, ScaleUp)))
EpsD == Up(EpsDual(e.x, e.y))
W == VNormInf(RowWeights(NMax(S.rho, e.est)) \o BoxWeights(NMax(S.rho, e.est)))
YTol == NMul(NMul(R.tol.w, NAdd("1", W)), NAdd("1", NAdd(VNormInf(e.x), VNormInf(e.y))))
Solved ==
  /\ Say("success without a scheduled test", S.check # 0 /\ e.iter % S.check = 0)
  /\ Say("iteration count", e.iter <= S.max_iter /\ e.solves = e.iter)
  /\ Say("KKT certificate", Certificate(e.x, e.y, EpsP, NAdd(EpsD, YTol), YTol))
  /\ Say("reported residual above tolerance", NLeq(e.resP, EpsP) /\ NLeq(e.resD, EpsD))
  /\ Say("reported dual residual", NClose(e.resD, ResDual(e.x, e.y), YTol, R.tol.r))
Limit == Say("iteration count at the limit", e.iter \in {S.max_iter, S.max_iter + 1} /\ e.solves = S.max_iter)
Verify == /\ ~ok
          /\ Say("status", e.status \in {"SOLVED", "MAX_ITER"} /\ e.istatus = e.status)
          /\ (e.status = "SOLVED" => Solved)
          /\ (e.status = "MAX_ITER" => Limit)
          /\ (R.expect = "solved" => Say("a well-posed problem is solved", e.status = "SOLVED"))
          /\ (R.expect = "infeasible" => Say("an infeasible problem is not solved", e.status = "MAX_ITER"))
          /\ ok' = TRUE /\ UNCHANGED <<t, vars>>
CSpec == CInit /\ [][Verify]_<<t, ok, vars>>
Progress == IF ok THEN TLCSet(t, 1) ELSE TRUE
ASSUME \A i \in 1..Len(Records) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Records) : TLCGet(i) = 0}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Records[i].id, 0>>)) /\ FALSE
=============================================================================
