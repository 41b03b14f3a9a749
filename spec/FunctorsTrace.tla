--------------------------- MODULE FunctorsTrace ---------------------------
(* Conformance of recorded histories of the stand-alone functors: whatever   *)
(* was evaluated before, and wherever the result is stored, it is a function *)
(* of the trajectory and the interval.                                       *)
EXTENDS Functors, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev
D == Tr.D
P == Tr.P
Kinds == {<<Traces[i].fam, Traces[i].D.N>> : i \in 1..Len(Traces)}
Table == [k \in Kinds |-> LET x == Nodes(IF k[1] = 0 THEN "cheb" ELSE "leg", k[2]) IN [dm |-> DMat(x), w |-> IntWeights(x)]]
Decs == [i \in 1..Len(Traces) |-> DecodeAll(Traces[i].D)]
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Has(e, k) == k \in DOMAIN e
Match(e) ==
  LET T == Table[<<Tr.fam, D.N>>]
      r == Results(D, P, Decs[t], T.dm, T.w, e.t0, e.tf, e.z)
      mg == NMul(r.mag, NMul(NMax("1", NAbs(Ts(D, e.t0, e.tf))), NOf(4 * NumNodes(D))))
      tv == NMul(Tr.u, NAdd(mg, NMul(MNormMax(T.dm), VNormInf(e.z))))
      td == NMul(Tr.u, NAdd(mg, MNormMax(T.dm)))
      Vec_(what, k, b, tol) == IF Has(e, k) THEN Say(what, VClose(e[k], b, tol, Tr.u)) ELSE TRUE
      Mat_(what, k, b, tol) == IF Has(e, k) THEN Say(what, MClose(e[k], b, tol, Tr.u)) ELSE TRUE
  IN /\ Vec_("collocated dynamics", "ce", r.ce, tv)
     /\ Mat_("Jacobian of the dynamics", "je", r.je, td)
     /\ IF Has(e, "f") THEN Say("cost", NClose(e.f, r.f, tv, Tr.u)) ELSE TRUE
     /\ Vec_("cost gradient", "g", r.g, td)
     /\ Mat_("cost Hessian", "ch", r.ch, td)
     /\ Vec_("node-wise function", "ci", r.ci, tv)
     /\ Vec_("node-wise function (returned)", "ci2", r.ci, tv)
TInit == t \in 1..Len(Traces) /\ l = 1
TNext == l <= Len(Ev) /\ (IF Ev[l].op = "fresh" THEN TRUE ELSE Match(Ev[l])) /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, l>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
