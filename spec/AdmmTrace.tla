----------------------------- MODULE AdmmTrace -----------------------------
(* Conformance of recorded solves with Admm.  TRACE is a file of JSON lines; *)
(* each line is a problem and the outcomes ev[1], ev[2], ... of runs of the  *)
(* real solver on it limited to 1, 2, ... iterations.  Event i is matched    *)
(* against the state of the machine when it has completed i iterations (or   *)
(* has stopped); the machine then continues from the observed x and y, its   *)
(* unobserved copies z, q and penalty being its own.                         *)
EXTENDS Admm, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, top, rel  \* top: largest penalty weight so far (the implementation updates the system in place);
                          \* rel: largest relative rounding error so far (the unobserved copies carry it along)
tvars == <<t, l, top, rel, vars>>

Tr == Traces[t]
Ev == Tr.ev
Tol == Tr.tol              \* relative tolerances: x of iterates, c unit roundoff, r of residuals and estimates, k and u of the linear system
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE

WMax == VNormInf(RowWeights(rho) \o BoxWeights(rho))
\* forward error of the solution of the linear system: unit roundoff times its condition number and times the
\* growth factor of an LDL' factorisation of a quasi-definite matrix without pivoting
Growth == LET a == NAdd("1", NAdd(MNormMax(prob.H), MNormMax(prob.A))) IN NDiv(NMul(a, a), S.sigma)
Rel == NAdd(Tol.x, NMul(Tol.c, NAdd(MCond(KKT(rhoK)), Growth)))
Size == NAdd("1", NMax(VNormInf(x), NMax(VNormInf(y), VNormInf(z))))
XTol == NMul(Rel, Size)
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ StartWith(Traces[t].prob) /\ top = WMax /\ rel = Rel
\* multipliers are penalty times a difference of rounded copies
YTol == NMul(rel, NAdd(Size, NMul(WMax, NAdd("1", VNormInf(x)))))
RTol(scale) == NAdd(NMul(Tol.r, NAdd("1", scale)), YTol)

Point(e) == /\ Say("x", VClose(e.x, x, XTol, "0"))
            /\ Say("y", VClose(e.y, y, YTol, "0"))
\* residuals reported after the last evaluation; when none happened the fields keep their initial value
Residuals(e) == resAt = 0 \/
  (/\ Say("primal residual", NClose(e.resP, resP, RTol(ScalePrim(x)), Tol.r))
   /\ Say("dual residual", NClose(e.resD, resD, RTol(ScaleDual(x, y)), Tol.r)))
Penalty(e) == /\ Say("number of penalty updates", e.nupd = nupd)
              /\ Say("penalty estimate", est = "0" \/ NClose(e.est, est, "0", Tol.r))

\* a successful outcome is itself a KKT certificate, at the tolerances the settings ask for
Certified(e) == e.status = "SOLVED" =>
  Say("KKT certificate", Certificate(e.x, e.y, NAdd(Up(EpsPrim(e.x)), XTol), NAdd(Up(EpsDual(e.x, e.y)), YTol), YTol))
Observe(e) == /\ Say("status", e.status = status /\ e.istatus = status)
              /\ Certified(e)
              /\ Point(e) /\ Residuals(e) /\ Penalty(e)

\* the recorded linear system of the last iteration (lower triangle only for half storage)
KMatch(e) == LET K == KKT(rhoK) IN
  /\ Len(e.K) = Len(K)
  /\ \A i \in 1..Len(K) : \A j \in 1..Len(K) :
        (j <= i \/ Tr.full) => NClose(e.K[i][j], K[i][j], NAdd("1e-12", NMul(Tol.u, top)), Tol.k)

\* machine steps; after an iteration the linear system it used is compared
TIterate == /\ Iterate
            /\ l <= Len(Ev) => Say("linear system", KMatch(Ev[l]))
            /\ UNCHANGED <<t, l, top, rel>>
\* the estimate is ill-conditioned once a residual is only rounding noise: then take the recorded one
Noise(rp, rd) == NLt(rp, RTol(ScalePrim(x))) \/ NLt(rd, RTol(ScaleDual(x, y)))
TAdapt == LET rp == ResPrim(x)  rd == ResDual(x, y)  e == Clip(RhoEstimate(rp, rd))
              f == IF l <= Len(Ev) /\ (Noise(NDiv(rp, "100"), NDiv(rd, "100")) \/ NClose(Ev[l].est, e, "0", Tol.r)) THEN Ev[l].est ELSE e
          IN (SkipAdapt \/ KeepRho(rp, rd, f) \/ ChangeRho(rp, rd, f)) /\ UNCHANGED <<t, l>> /\ top' = NMax(top, WMax') /\ rel' = NMax(rel, Rel')
TCheck == Check /\ UNCHANGED <<t, l, top, rel>>

\* a run limited to k iterations ended here: compare, then let the machine go on
TLimit == /\ pc = "iterate" /\ l <= Len(Ev) /\ k = l /\ Ev[l].status # "SOLVED"
          /\ LET e == Ev[l] IN
             /\ Say("status", e.status = "MAX_ITER" /\ e.istatus = "MAX_ITER")
             /\ Say("iteration count at the limit", e.iter \in {k, k + 1})
             /\ Say("linear solves", e.solves = k)
             /\ Point(e) /\ Residuals(e) /\ Penalty(e)
             /\ x' = e.x /\ y' = e.y
          /\ l' = l + 1
          /\ UNCHANGED <<t, top, rel, prob, pc, k, z, q, rho, rhoK, resP, resD, resAt, est, nupd, status>>
TDone == /\ pc = "done" /\ l <= Len(Ev) /\ k = l
         /\ LET e == Ev[l] IN Observe(e) /\ Say("iteration count", e.iter = k) /\ Say("linear solves", e.solves = k)
         /\ l' = l + 1
         /\ UNCHANGED <<t, top, rel, vars>>

\* the machine may only iterate once the previous outcome was matched
TNext == TLimit \/ TDone \/ (l = k + 1 /\ l <= Len(Ev) /\ TIterate) \/ (pc = "check" /\ TCheck) \/ (pc = "adapt" /\ TAdapt)
TSpec == TInit /\ [][TNext]_tvars

Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
