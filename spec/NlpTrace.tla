------------------------------ MODULE NlpTrace ------------------------------
(* Conformance of recorded evaluations of a ProblemBase problem with Nlp.    *)
(* Every evaluation is a function of its arguments alone.                    *)
EXTENDS Nlp, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev
P == Tr.P
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Match(e) ==
  LET r == Regs(P, e.x, e.q)
      c == Cost(P, r)
      cons == Eager([v |-> Vals(Cons(P, r)), j |-> Jac(Cons(P, r))])
      scale == IF e.op = "lghs" THEN e.scale ELSE "1"
      lam == IF "lam" \in DOMAIN e THEN e.lam ELSE Zeros(Len(cons.v) + Len(e.x))
      L == Lagr(P, r, e.x, lam, scale)
      mag == NMul(Mag(r, 1), NMul(NOf(4 + Len(cons.v)), NAdd("1", VNormInf(lam))))
      T == NMul(Tr.u, mag)
      ne == Len(P.eq)
      Num_(what, a, b) == Say(what, NClose(a, b, T, Tr.u))
      Vec_(what, a, b) == Say(what, VClose(a, b, T, Tr.u))
      Mat_(what, a, b) == Say(what, MClose(a, b, T, Tr.u))
      \* rows of the equalities and of the inequalities
      Sub_(w) == IF w = "eq" THEN [v |-> SubSeq(cons.v, 1, ne), j |-> SubSeq(cons.j, 1, ne)] ELSE [v |-> SubSeq(cons.v, ne + 1, Len(cons.v)), j |-> SubSeq(cons.j, ne + 1, Len(cons.v))]
  IN CASE e.op = "cost" -> Num_("cost", e.f, c.v)
       [] e.op = "cg" -> Num_("cost", e.f, c.v) /\ Vec_("cost gradient", e.g, c.g)
       [] e.op = "cgh" -> Num_("cost", e.f, c.v) /\ Vec_("cost gradient", e.g, c.g) /\ Mat_("cost Hessian", e.h, c.h)
       [] e.op = "con" -> Vec_("constraints", e.c, cons.v)
       [] e.op \in {"eq", "ineq"} -> Vec_("constraints", e.c, Sub_(e.op).v)
       [] e.op = "conl" -> Vec_("constraints", e.c, cons.v) /\ Mat_("Jacobian", e.j, cons.j)
       [] e.op = "eql" -> Vec_("equalities", e.c, Sub_("eq").v) /\ Mat_("equality Jacobian", e.j, Sub_("eq").j)
       [] e.op = "ineql" -> Vec_("inequalities", e.c, Sub_("ineq").v) /\ Mat_("inequality Jacobian", e.j, Sub_("ineq").j)
       [] e.op = "lag" -> Num_("Lagrangian", e.f, L.v)
       \* the overloads with derivatives return the cost in the value argument
       [] e.op = "lg" -> Num_("cost", e.f, c.v) /\ Vec_("Lagrangian gradient", e.lg, L.g)
       [] e.op = "lgj" -> Num_("cost", e.f, c.v) /\ Vec_("Lagrangian gradient", e.lg, L.g) /\ Vec_("cost gradient", e.g, c.g)
                          /\ Vec_("constraints", e.c, cons.v) /\ Mat_("Jacobian", e.j, cons.j)
       [] e.op \in {"lgh", "lghs"} ->
             /\ Num_("cost", e.f, c.v) /\ Vec_("cost gradient", e.g, c.g)
             /\ Vec_("Lagrangian gradient", e.lg, Lagr(P, r, e.x, lam, "1").g)   \* the scale applies to the Hessian only
             /\ Vec_("constraints", e.c, cons.v) /\ Mat_("Jacobian", e.j, cons.j) /\ Mat_("Lagrangian Hessian", e.h, L.h)
TInit == t \in 1..Len(Traces) /\ l = 1
TNext == l <= Len(Ev) /\ Match(Ev[l]) /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, l>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
