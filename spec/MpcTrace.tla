------------------------------ MODULE MpcTrace ------------------------------
(* Conformance of recorded histories of the MPC interface with Mpc.  Every   *)
(* event records the complete problem in force after it.                     *)
EXTENDS Mpc, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, m
vars == <<t, l, m>>
Tr == Traces[t]
Ev == Tr.ev
D == Tr.D
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Decs == [i \in 1..Len(Traces) |-> DecodeAll(Traces[i].D)]
Orders == {Traces[i].D.N : i \in {j \in 1..Len(Traces) : Traces[j].asp = "adm"}}
Table == [n \in Orders |-> [dm |-> DMat(Cgl(n)), w |-> IntWeights(Cgl(n))]]
Fields == <<"t0", "tf", "lx", "ux", "lg", "ug", "d", "z", "lam">>
SameState(a, b) == \A i \in 1..Len(Fields) : Say(Fields[i], a[Fields[i]] = b[Fields[i]])
\* an unused controller constrains nothing and starts from zero
FirstOk(f) == /\ \A i \in 1..Len(f.lx) : f.lx[i] = "-inf" /\ f.ux[i] = "inf"
              /\ \A i \in 1..Len(f.lg) : f.lg[i] = "-inf" /\ f.ug[i] = "inf"
              /\ \A i \in 1..Len(f.z) : f.z[i] = "0"
              /\ \A i \in 1..Len(f.lam) : f.lam[i] = "0"
              /\ f.t0 = "0" /\ f.tf = "1"
\* interpolation: rounding of the arguments and of the polynomial's coefficients
RECURSIVE CondProd(_, _, _, _)
CondProd(ts, tau, j, i) == IF i > Len(ts) THEN "1" ELSE IF i = j THEN CondProd(ts, tau, j, i + 1)
                           ELSE NMul(NDiv(NAdd(NAbs(tau), NAbs(ts[i])), NAbs(NSub(ts[j], ts[i]))), CondProd(ts, tau, j, i + 1))
InterpTol(v, s, time) ==
  LET h == NDiv(NSub(m.tf, m.t0), NOf(D.S))
      ts == Eager([i \in 1..(D.N + 1) |-> NSub(TimeOf(D, m, i - 1), m.t0)])
      tau == NSub(time, TimeOf(D, m, s * D.N))
      big(j) == VNormInf(v[s * D.N + j])
      cond == VSum([j \in 1..(D.N + 1) |-> NMul(big(j), CondProd(ts, tau, j, 1))])
  IN NMul(NMul(Tr.u, cond), NAdd("1", NMul(NOf(D.N), NDiv(NAdd(NAbs(m.t0), NAbs(m.tf)), h))))
AtOk(v, time, got) == LET s == SegAt(D, m, time, D.S - 1) IN
  LET tol == NMax(InterpTol(v, s, time), IF s = 0 THEN "0" ELSE InterpTol(v, s - 1, time)) IN VClose(got, OnSegment(D, m, v, s, time), tol, "0")
ReadOk(e) ==
  LET xs == XSteps(D, m)  us == USteps(D, m) IN
  /\ Say("state trajectory", e.xs = XTraj(D, m)) /\ Say("control trajectory", e.us = UTraj(D, m))
  /\ Say("states in time order", e.xr = xs) /\ Say("controls in time order", e.ur = us)
  /\ Say("state at a step", e.xn = xs) /\ Say("control at a step", e.un = us)
  /\ Say("parameters", e.p = Params(D, m)) /\ Say("multipliers", e.dual = m.lam)
  /\ Say("norms", e.norms)
  /\ Say("state at a time", \A i \in 1..Len(e.ts) : AtOk(xs, e.ts[i], e.xa[i]))
  /\ Say("control at a time", \A i \in 1..Len(e.ts) : AtOk(us, e.ts[i], e.ua[i]))
\* a successful solve is admissible within the tolerance the solver was given
RECURSIVE MaxOf(_, _, _)
MaxOf(J, k, acc) == IF k > Len(J) THEN acc ELSE MaxOf(J, k + 1, NMax(acc, J[k].mag))
FinMax(v) == VNormInf([i \in 1..Len(v) |-> IF NFin(v[i]) THEN v[i] ELSE "0"])
Admissible ==
  LET J == NodeVals(D, Tr.P, Table[D.N].w, m.t0, m.tf, m.z, m.d)  ts == Ts(D, m.t0, m.tf)
      mg == NMul(MaxOf(J, 1, "1"), NMul(NMax("1", NAbs(ts)), NOf(4)))
      err == NMul(Tr.u, NAdd(NAdd(NMul(mg, NOf(NumNodes(D))), NMul(MNormMax(Table[D.N].dm), VNormInf(m.z))), NMax(FinMax(m.lx), FinMax(m.ux))))
      tol == NAdd(Tr.ep, err)
  IN /\ Say("initial state, bounds of the trajectory and parameters", Within(m.z, m.lx, m.ux, tol))
     /\ Say("dynamics", Small(EqVals(D, Table[D.N].dm, ts, J, m.z), tol))
     /\ Say("path constraints", D.ng = 0 \/ Within(IneqVals(D, J), m.lg, m.ug, tol))
TInit == t \in 1..Len(Traces) /\ l = 1 /\ m = Tr.first /\ (IF Tr.asp = "set" THEN Say("unused controller", FirstOk(Tr.first)) ELSE TRUE)
Call ==
  LET e == Ev[l] IN
  /\ l' = l + 1 /\ UNCHANGED t
  /\ CASE e.op = "t" -> m' = SetLimits(m, e.a[1], e.a[2])
       [] e.op \in {"read"} -> m' = m
       [] e.op = "solve" -> m' = Solved(m, e.st.z, e.st.lam)
       [] e.op = "loop" -> m' = Set(D, Decs[t], m, "x0", <<e.x0>>)
       [] OTHER -> m' = Set(D, Decs[t], m, e.op, e.a)
  /\ IF Tr.asp = "set" THEN SameState(e.st, m')
     ELSE IF Tr.asp = "read" THEN (CASE e.op = "read" -> ReadOk(e) [] e.op = "loop" -> Say("state at a time", AtOk(XSteps(D, m), e.at, e.x0)) [] OTHER -> TRUE)
     ELSE TRUE
Settle == Tr.asp = "adm" /\ l > 1 /\ l <= Len(Ev) + 1 /\ Ev[l - 1].op = "solve" /\ Ev[l - 1].status = "SOLVED"
TNext == /\ IF Settle THEN Admissible ELSE TRUE
         /\ IF l <= Len(Ev) THEN Call ELSE l = Len(Ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<t, m>>
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 2}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
