--------------------------- MODULE AdapterTrace ----------------------------
(* Conformance of the Ipopt adapter, driven by a stand-in for Ipopt, with    *)
(* Adapter.  The program behind it is a nonlinear program (Nlp) or a         *)
(* transcribed optimal control problem (Ocp).                                *)
EXTENDS Adapter, TLC, Json, IOUtils
Np == INSTANCE Nlp
Oc == INSTANCE Ocp
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, s, last
vars == <<t, l, s, last>>
Tr == Traces[t]
Ev == Tr.ev
D == Tr.D
P == Tr.P
NC == D.ne + D.ni
Orders == {Traces[i].D.N : i \in {j \in 1..Len(Traces) : Traces[j].kind = "ocp"}}
Table == [n \in Orders |-> [dm |-> Oc!DMat(Oc!Cgl(n)), w |-> Oc!IntWeights(Oc!Cgl(n))]]
Decs == [i \in 1..Len(Traces) |-> IF Traces[i].kind = "ocp" THEN Oc!DecodeAll(Traces[i].D) ELSE <<>>]
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Has(e, k) == k \in DOMAIN e
\* an evaluation of the program at e.x with the user's current parameters (and horizon); the multipliers of variable bounds do not enter the Hessian
NlpMatch(e) ==
  LET r == Np!Regs(P, e.x, s.q)
      c == Np!Cost(P, r)
      cons == Np!Cons(P, r)
      lam == (IF Has(e, "l") THEN e.l ELSE ZerosN(NC)) \o ZerosN(D.nv)
      L == Np!Lagr(P, r, e.x, lam, IF Has(e, "scale") THEN e.scale ELSE "1")
      T == NMul(Tr.u, NMul(Np!Mag(r, 1), NMul(NOf(4 + NC), NAdd("1", VNormInf(lam)))))
  IN /\ (IF Has(e, "f") THEN Say("objective", NClose(e.f, c.v, T, Tr.u)) ELSE TRUE)
     /\ (IF Has(e, "g") THEN Say("objective gradient", VClose(e.g, c.g, T, Tr.u)) ELSE TRUE)
     /\ (IF Has(e, "c") THEN Say("constraints", VClose(e.c, Np!Vals(cons), T, Tr.u)) ELSE TRUE)
     /\ (IF Has(e, "j") THEN Say("Jacobian", MClose(e.j, Np!Jac(cons), T, Tr.u)) ELSE TRUE)
     /\ (IF Has(e, "h") THEN Say("Hessian", MClose(e.h, L.h, T, Tr.u)) ELSE TRUE)
OcpMatch(e) ==
  LET dm == Table[D.N].dm
      dec == Decs[t]
      ts == Oc!Ts(D, s.hor[1], s.hor[2])
      J == Oc!NodeJets(D, P, Table[D.N].w, s.hor[1], s.hor[2], e.x, s.q)
      lam == (IF Has(e, "l") THEN e.l ELSE ZerosN(NC)) \o ZerosN(D.nv)
      mg == NMul(Oc!MaxMag(J, 1), NMul(NMax("1", NAbs(ts)), NOf(4)))
      md == NMul(MNormMax(dm), VNormInf(e.x))
      T == NMul(Tr.u, NAdd(NMul(mg, NOf(Oc!NumNodes(D))), md))
      TJ == NMul(Tr.u, NAdd(NMul(mg, NOf(Oc!NumNodes(D))), MNormMax(dm)))
      L1 == NAdd("1", VNorm1(lam))
      sc == IF Has(e, "scale") THEN e.scale ELSE "1"
  IN /\ (IF Has(e, "f") THEN Say("objective", NClose(e.f, Oc!CostVal(J), T, Tr.u)) ELSE TRUE)
     /\ (IF Has(e, "g") THEN Say("objective gradient", VClose(e.g, Oc!CostGrad(D, dec, J), TJ, Tr.u)) ELSE TRUE)
     /\ (IF Has(e, "c") THEN Say("constraints", VClose(e.c, Oc!EqVals(D, dm, ts, J, e.x) \o Oc!IneqVals(D, J), T, Tr.u)) ELSE TRUE)
     /\ (IF Has(e, "j") THEN Say("Jacobian", MClose(e.j, Oc!EqJac(D, dec, dm, ts, J) \o Oc!IneqJac(D, dec, J), TJ, Tr.u)) ELSE TRUE)
     /\ (IF Has(e, "h") THEN Say("Hessian", MClose(e.h, Oc!LagHess(D, dec, ts, J, lam, sc), NMul(TJ, NMul(L1, NMax("1", NAbs(sc)))), Tr.u)) ELSE TRUE)
\* what a callback answers
Answers(e) ==
  CASE e.op = "info" -> Say("dimensions", e.n = D.nv /\ e.m = NC /\ e.cstyle)
    [] e.op = "bounds" -> /\ Say("variable bounds", Same(e.xl, s.lbx) /\ Same(e.xu, s.ubx))
                          /\ Say("constraint bounds", Same(e.gl, GLower(s, D.ne)) /\ Same(e.gu, GUpper(s, D.ne)))
    [] e.op = "start" -> /\ (IF Has(e, "x") THEN Say("starting point", Same(e.x, s.x)) ELSE TRUE)
                         /\ (IF Has(e, "l") THEN Say("starting multipliers", Same(e.l, Head_(s.lam, NC))) ELSE TRUE)
                         /\ (IF Has(e, "zl") THEN Say("starting bound multipliers", VClose(e.zl, LowerDual(s.lam, NC), "0", "1e-15") /\ VClose(e.zu, UpperDual(s.lam, NC), "0", "1e-15")) ELSE TRUE)
    [] e.op \in {"sj", "sh"} -> Say("structure", e.fits)
    [] e.op \in {"f", "gf", "g", "jac", "h"} -> IF Tr.kind = "nlp" THEN NlpMatch(e) ELSE OcpMatch(e)
    [] e.op = "fin" -> TRUE
    [] OTHER -> FALSE
Calls == {"info", "bounds", "start", "sj", "sh", "f", "gf", "g", "jac", "h", "fin"}
TInit == /\ t \in 1..Len(Traces) /\ l = 1
         /\ s = Fresh(Traces[t].D.nv, Traces[t].D.ne, Traces[t].D.ni, Traces[t].D.nq, Traces[t].hor)
         /\ last = [status |-> 0, iter |-> 0, obj |-> "0", dual |-> "0", viol |-> "0"]
TNext ==
  /\ l <= Len(Ev)
  /\ l' = l + 1 /\ UNCHANGED t
  /\ LET e == Ev[l] IN
     IF e.op \in {"lbx", "ubx", "lbg", "ubg"} THEN s' = [s EXCEPT ![e.op] = e.v] /\ UNCHANGED last
     ELSE IF e.op = "par" THEN s' = [s EXCEPT !.q = e.v] /\ UNCHANGED last
     ELSE IF e.op = "x0" THEN s' = [s EXCEPT !.x = e.v] /\ UNCHANGED last
     ELSE IF e.op = "lam0" THEN s' = [s EXCEPT !.lam = e.v] /\ UNCHANGED last
     ELSE IF e.op = "lim" THEN s' = [s EXCEPT !.hor = <<e.t0, e.tf>>] /\ UNCHANGED last
     ELSE IF e.op = "solve" THEN UNCHANGED <<s, last>>
     ELSE IF e.op = "guess" THEN s' = Guess(s, e.x, e.lam) /\ UNCHANGED last
     ELSE IF e.op = "end" THEN last' = [status |-> e.status, iter |-> e.iter, obj |-> e.obj, dual |-> e.dual, viol |-> e.viol] /\ UNCHANGED s
     ELSE IF e.op = "get" THEN
          /\ UNCHANGED <<s, last>>
          /\ Say("primal solution", Same(e.x, s.x))
          /\ Say("dual solution", VClose(e.lam, s.lam, "0", "1e-15"))
          /\ Say("bounds", Same(e.lbx, s.lbx) /\ Same(e.ubx, s.ubx) /\ Same(e.lbg, s.lbg) /\ Same(e.ubg, s.ubg) /\ Same(e.q, s.q) /\ e.same)
          /\ (IF \E k \in 1..l : Ev[k].op = "end" THEN Say("report", e.status = last.status /\ e.iter = last.iter /\ NEq(e.cost, last.obj) /\ NEq(e.dual, last.dual) /\ NEq(e.viol, last.viol)) ELSE TRUE)
     ELSE IF e.op \in Calls THEN
          /\ (IF e.op = "fin" THEN s' = Deliver(s, e.x, e.l, e.zl, e.zu) ELSE UNCHANGED s)
          /\ UNCHANGED last
          /\ Say("callback refused", e.ok)
          /\ Answers(e)
     ELSE FALSE
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
