------------------------------ MODULE OcpTrace ------------------------------
(* Conformance of recorded histories of a ContinuousOCP with Ocp: changes of *)
(* the horizon are the only actions with an effect; every evaluation must    *)
(* match whatever was evaluated before and wherever the result is stored.    *)
EXTENDS Ocp, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, hor
Tr == Traces[t]
Ev == Tr.ev
D == Tr.D
P == Tr.P
Orders == {Traces[i].D.N : i \in 1..Len(Traces)}
Table == [n \in Orders |-> [dm |-> DMat(Cgl(n)), w |-> IntWeights(Cgl(n))]]
Decs == [i \in 1..Len(Traces) |-> DecodeAll(Traces[i].D)]
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Has(e, k) == k \in DOMAIN e
Match(e) ==
  LET dm == Table[D.N].dm
      dec == Decs[t]
      ts == Ts(D, hor[1], hor[2])
      J == NodeJets(D, P, Table[D.N].w, hor[1], hor[2], e.z, e.d)
      ev == EqVals(D, dm, ts, J, e.z)
      iv == IneqVals(D, J)
      je == EqJac(D, dec, dm, ts, J)
      ji == IneqJac(D, dec, J)
      grad == CostGrad(D, dec, J)
      lam == e.lam
      \* error bounds: rounding relative to the terms that are added up
      mg == NMul(MaxMag(J, 1), NMul(NMax("1", NAbs(ts)), NOf(4)))
      md == NMul(MNormMax(dm), VNormInf(e.z))
      T == NMul(Tr.u, NAdd(NMul(mg, NOf(NumNodes(D))), md))
      TJ == NMul(Tr.u, NAdd(NMul(mg, NOf(NumNodes(D))), MNormMax(dm)))
      L1 == NAdd("1", VNorm1(lam))
      Num_(what, k, b, tol) == IF Has(e, k) THEN Say(what, NClose(e[k], b, tol, Tr.u)) ELSE TRUE
      Vec_(what, k, b, tol) == IF Has(e, k) THEN Say(what, VClose(e[k], b, tol, Tr.u)) ELSE TRUE
      Mat_(what, k, b, tol) == IF Has(e, k) THEN Say(what, MClose(e[k], b, tol, Tr.u)) ELSE TRUE
  IN /\ Num_("cost", "f", CostVal(J), T)
     /\ Num_("Lagrangian", "lv", LagVal(D, CostVal(J), ev, iv, lam, e.z), NMul(NMul(T, L1), NMax("1", VNormInf(e.z))))
     /\ Vec_("equalities", "ce", ev, T)
     /\ Vec_("inequalities", "ci", iv, T)
     /\ Vec_("constraints", "c", ev \o iv, T)
     /\ Mat_("equality Jacobian", "je", je, TJ)
     /\ Mat_("inequality Jacobian", "ji", ji, TJ)
     /\ Mat_("constraint Jacobian", "j", je \o ji, TJ)
     /\ Vec_("cost gradient", "g", grad, TJ)
     /\ Vec_("Lagrangian gradient", "lg", LagGrad(D, grad, je, ji, lam), NMul(TJ, L1))
     /\ Mat_("cost Hessian", "ch", CostHess(D, dec, J), TJ)
     /\ Mat_("Lagrangian Hessian", "h", LagHess(D, dec, ts, J, lam, e.scale), NMul(TJ, NMul(L1, NMax("1", NAbs(e.scale)))))
\* the quasi-Newton update of the stored Hessian
UpdateMatch(e) ==
  LET dec == Decs[t]  v == Eager(MVec(e.h0, e.s))
      sv == VDot(e.s, v)  sy == VDot(e.s, e.y)
      r == Eager(Damped(e.s, e.y, v))  sr == VDot(e.s, r)
      tiny == NLt(sr, e.eps)
      big == NMax(NMax(MNormMax(e.h0), NDiv(Sq(VNormInf(v)), NMax(NAbs(sv), e.eps))), NDiv(Sq(VNormInf(r)), NMax(NAbs(sr), e.eps)))
      tol == NMul(NMul(Tr.u, NOf(100)), NAdd("1", big))
      done(q) == BlockBfgs(dec, e.h0, e.s, q, v)
      want == IF tiny THEN e.h0 ELSE done(r)
      \* at the switch of the damping both branches are the same update up to rounding
  IN /\ Say("quasi-Newton update", MClose(e.h1, want, tol, Tr.u))
     /\ Say("pattern", \A a \in 1..Len(e.h1) : \A b \in 1..Len(e.h1) : InPattern(dec[a], dec[b]) \/ (NEq(e.h1[a][b], e.h0[a][b]) /\ NEq(e.h1[a][b], "0")))
     /\ Say("symmetry", MClose(e.h1, MTr(e.h1), tol, Tr.u))
     /\ Say("definiteness", (~tiny /\ e.own # 0 /\ D.np = 0) =>
            LET idx == SelectSeq([c \in 1..Len(dec) |-> c], LAMBDA c : dec[c][1] = e.own)
                sub(m) == [a \in 1..Len(idx) |-> [b \in 1..Len(idx) |-> m[idx[a]][idx[b]]]]
            IN MPosDef(sub(e.h0), NMul("1e-3", MNormMax(e.h0))) => MPosDef(sub(e.h1), NNeg(tol)))
TInit == t \in 1..Len(Traces) /\ l = 1 /\ hor = Traces[t].hor
TNext ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l] IN
     IF e.op = "lim" THEN hor' = <<e.t0, e.tf>>
     ELSE /\ UNCHANGED hor
          /\ (IF e.op = "hup" THEN UpdateMatch(e)
              ELSE IF e.op = "time" THEN
                   /\ Say("time nodes", VClose(e.tn, TimeNodes(D, hor[1], hor[2]), NMul(Tr.u, NAdd("1", NAdd(NAbs(hor[1]), NAbs(hor[2])))), "0"))
                   /\ Say("horizon", NEq(e.t0, hor[1]) /\ NEq(e.tf, hor[2]))
              ELSE IF e.op = "fresh" THEN TRUE ELSE Match(e))
  /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, l, hor>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
