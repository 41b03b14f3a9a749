------------------------------ MODULE SqpTrace ------------------------------
(* Conformance of recorded NLP solves with Sqp.  A record holds what the     *)
(* inner solver was given and answered at every iteration, and the outcome;  *)
(* asp selects what is judged: the posed subproblems ("qp"), the step        *)
(* ("step"), or the outcome ("end").                                         *)
EXTENDS Sqp, Ocp, TLC, Json, IOUtils
N == INSTANCE Nlp
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev
B == Tr.B
set == Tr.set
Pb == Tr.pb
u == Tr.u
Orders == {Traces[i].pb.D.N : i \in {j \in 1..Len(Traces) : Traces[j].pb.kind = "ocp"}}
Table == [n \in Orders |-> [dm |-> DMat(Cgl(n)), w |-> IntWeights(Cgl(n))]]
Decs == [i \in 1..Len(Traces) |-> IF Traces[i].pb.kind = "ocp" THEN DecodeAll(Traces[i].pb.D) ELSE <<>>]
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Ocp_ == Pb.kind = "ocp"
RECURSIVE MaxOf(_, _, _)
MaxOf(J, k, acc) == IF k > Len(J) THEN acc ELSE MaxOf(J, k + 1, NMax(acc, J[k].mag))

\* values only; tol bounds the rounding error of each of them
Values(x) ==
  IF Ocp_ THEN
    LET D == Pb.D  J == NodeVals(D, Pb.P, Table[D.N].w, Pb.t0, Pb.tf, x, B.q)  ts == Ts(D, Pb.t0, Pb.tf)
        mg == NMul(MaxOf(J, 1, "1"), NMul(NMax("1", NAbs(ts)), NOf(4)))
    IN Eager([f |-> CostVal(J), ce |-> EqVals(D, Table[D.N].dm, ts, J, x), ci |-> IneqVals(D, J),
        tol |-> NMul(u, NAdd(NMul(mg, NOf(NumNodes(D))), NMul(MNormMax(Table[D.N].dm), VNormInf(x))))])
  ELSE LET r == N!Run(Pb.P.prog, <<>>, x \o B.q) IN
    [f |-> N!Cost(Pb.P, r).v, ce |-> N!Vals(N!Eqs(Pb.P, r)), ci |-> N!Vals(N!Ineqs(Pb.P, r)), tol |-> NMul(NMul(u, "8"), N!Mag(r, 1))]
\* everything the subproblem needs
Full(x, lam) ==
  IF Ocp_ THEN
    LET D == Pb.D  dm == Table[D.N].dm  dec == Decs[t]  ts == Ts(D, Pb.t0, Pb.tf)
        J == NodeJets(D, Pb.P, Table[D.N].w, Pb.t0, Pb.tf, x, B.q)
        je == EqJac(D, dec, dm, ts, J)  ji == IneqJac(D, dec, J)  grad == CostGrad(D, dec, J)
        mg == NMul(MaxMag(J, 1), NMul(NMax("1", NAbs(ts)), NOf(4)))
        T == NMul(u, NAdd(NMul(mg, NOf(NumNodes(D))), NMul(MNormMax(dm), NAdd("1", VNormInf(x)))))
    IN [ce |-> EqVals(D, dm, ts, J, x), ci |-> IneqVals(D, J), grad |-> grad, jac |-> je \o ji, hess |-> LagHess(D, dec, ts, J, lam, "1"),
        lg |-> LagGrad(D, grad, je, ji, lam), tol |-> T, tolL |-> NMul(T, NAdd("1", VNorm1(lam)))]
  ELSE LET r == N!Regs(Pb.P, x, B.q)  L == N!Lagr(Pb.P, r, x, lam, "1")  T == NMul(NMul(u, NOf(4 + Len(lam))), N!Mag(r, 1))
    IN [ce |-> N!Vals(N!Eqs(Pb.P, r)), ci |-> N!Vals(N!Ineqs(Pb.P, r)), grad |-> N!Cost(Pb.P, r).g, jac |-> N!Jac(N!Cons(Pb.P, r)), hess |-> L.h, lg |-> L.g,
        tol |-> T, tolL |-> NMul(T, NAdd("1", VNormInf(lam)))]
\* difference of two rounded numbers
DiffOk(a, b, tol) == /\ Len(a) = Len(b)
                     /\ \A i \in 1..Len(a) : NClose(a[i], b[i], tol, u)
FinMax(v) == VNormInf([i \in 1..Len(v) |-> IF NFin(v[i]) THEN v[i] ELSE "0"])

\* ---------------------------------------------------------------- the posed subproblem
AddDiag(m, r) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> IF i = j THEN NAdd(m[i][j], r) ELSE m[i][j]]]
RECURSIVE Peak(_, _)
Peak(k, acc) == IF k = 0 THEN acc ELSE Peak(k - 1, NMax(acc, MNormMax(Ev[k].qp.H)))      \* an asymmetry of rounding stays when large entries are gone
Posed(k) ==
  LET e == Ev[k]  q == e.qp  F == Full(e.x, e.lam)
      val == [f |-> "0", ce |-> F.ce, ci |-> F.ci]
      lo == SubLow(B, val, e.x)  up == SubUpp(B, val, e.x)
      tb == NAdd(F.tol, NMul(u, NMax(FinMax(B.lg), FinMax(B.ug))))
      tx == NMul(u, NAdd(VNormInf(e.x), NMax(FinMax(B.lx), FinMax(B.ux))))
      exact == k = 1 \/ set.upd = 1
      tolH == NAdd(F.tolL, NMul(u, set.reg))
  IN /\ Say("handed over as the preconditioner left it", e.handed)
     /\ Say("gradient", DiffOk(q.h, F.grad, F.tol))
     /\ Say("Jacobian", MClose(q.A, F.jac, F.tol, u))
     /\ Say("lower constraint bounds", DiffOk(q.al, lo.al, tb))
     /\ Say("upper constraint bounds", DiffOk(q.au, up.au, tb))
     /\ Say("lower variable bounds", DiffOk(q.lx, lo.lx, tx))
     /\ Say("upper variable bounds", DiffOk(q.ux, up.ux, tx))
     /\ IF exact THEN Say("exact Hessian", MClose(q.H, AddDiag(F.hess, set.reg), tolH, u)) /\ Say("symmetry", MClose(q.H, MTr(q.H), tolH, u))
        ELSE LET b == Ev[k - 1]  G == Full(b.x, b.lam)
                 s == Eager(VSub(e.x, b.x))  y == Eager(VSub(F.lg, G.lg))
                 ds == NMul(u, NAdd(VNormInf(e.x), VNormInf(b.x)))
                 \* the gradient depends on the multipliers that were recorded, not on those of the subproblem
                 dy == NAdd(F.tolL, G.tolL)
             IN /\ IF set.upd = 0 THEN Say("damped update of the Hessian", DampedUpdateOk(b.qp.H, q.H, s, y, ds, dy, u, set.eps))
                   ELSE Say("block update of the Hessian", BlockUpdateOk(Decs[t], b.qp.H, q.H, s, y, ds, dy, u, set.eps))
                /\ Say("symmetry", MClose(q.H, MTr(q.H), NMul(NMul(u, NOf(k)), NAdd("1", Peak(k, "0"))), "0"))

\* ---------------------------------------------------------------- the step
After(k) == IF k < Len(Ev) THEN [x |-> Ev[k + 1].x, lam |-> Ev[k + 1].lam] ELSE [x |-> Tr.out.x, lam |-> Tr.out.lam]
Stepped(k) ==
  LET e == Ev[k]  n == After(k)  mu == Mu(e.y)  dl == Eager(VSub(e.y, e.lam))
      v0 == Eager(Values(e.x))
      grad == e.qp.h
      viol0 == Viol1(B, v0, e.x)
      phi0 == NAdd(v0.f, NMul(mu, viol0))
      slope == NSub(VDot(grad, e.p), NMul(mu, viol0))
      nc == NOf(2 + Len(v0.ce) + Len(v0.ci) + Len(e.x))
      ErrOf(v) == NMul(NAdd(NAdd(v.tol, v0.tol), NMul(u, NAdd(VNormInf(e.x), VNormInf(e.p)))), NMul(NMul("16", nc), NAdd("1", mu)))
      slopeErr == NMul(NMul(u, nc), NAdd(NMul(VNormInf(grad), VNormInf(e.p)), NMul(mu, NAdd(viol0, v0.tol))))
      Ex(j) == LET a == Trial(set.tau, j)  z == Eager(Move(e.x, a, e.p))  v == Eager(Values(z))
               IN [x |-> Excess(phi0, NAdd(v.f, NMul(mu, Viol1(B, v, z))), slope, set.eta, a), e |-> NAdd(ErrOf(v), slopeErr)]
      Near(j) == LET a == Trial(set.tau, j) IN
                 /\ VClose(n.x, Move(e.x, a, e.p), NMul(u, NAdd(VNormInf(e.x), VNormInf(e.p))), "0")
                 /\ VClose(n.lam, Move(e.lam, a, dl), NMul(u, NAdd("1", NMul("2", NAdd(VNormInf(e.lam), VNormInf(e.y))))), "0")
      ClearlyAccepted(j) == LET q == Ex(j) IN NLt(q.x, NNeg(q.e))
      ClearlyRejected(j) == LET q == Ex(j) IN NLt(q.e, q.x)
      RECURSIVE First(_)
      First(j) == IF j >= set.ls - 1 THEN j ELSE IF Near(j) THEN j ELSE First(j + 1)
      \* j is admissible: nothing before it was clearly acceptable, and it is not clearly rejected itself unless the trials ran out
      RECURSIVE Admissible(_, _)
      Admissible(j, i) == IF i >= set.ls - 1 THEN Near(j)
                          ELSE IF i = j THEN Near(j) /\ ~ClearlyRejected(j) ELSE ~ClearlyAccepted(i) /\ Admissible(j, i + 1)
      \* the same point may be reached by several lengths when the step is tiny
      RECURSIVE Some(_)
      Some(j) == IF j > set.ls - 1 THEN FALSE ELSE IF Near(j) /\ Admissible(j, 0) THEN TRUE ELSE Some(j + 1)
  IN Say("step", Some(First(0)))

\* ---------------------------------------------------------------- the outcome
EndOk ==
  LET o == Tr.out  n == Len(Ev)  e == Ev[n]
      val == Eager(Values(o.x))
      tx == NMul(u, NAdd(VNormInf(o.x), NAdd(VNormInf(e.x), VNormInf(e.p))))
      tl == NMul(u, NAdd(VNormInf(o.lam), NAdd(VNormInf(e.lam), VNormInf(e.y))))
      within == Converged(o.pn, o.dn, o.viol, set)
  IN /\ Say("status", o.status = (IF within THEN "SOLVED" ELSE "MAX_ITER"))
     /\ Say("iterations", o.iter = n /\ o.iter <= set.max /\ (o.status = "MAX_ITER" => o.iter = set.max))
     /\ Say("inner iterations", o.qit = Tr.qit)
     /\ Say("primal step norm", NClose(o.pn, VNormInf(VSub(o.x, e.x)), tx, u))
     /\ Say("dual step norm", NClose(o.dn, VNormInf(VSub(o.lam, e.lam)), tl, u))
     /\ Say("violation", NClose(o.viol, ViolMax(B, val, o.x), NAdd(val.tol, NMul(u, NAdd(VNormInf(o.x), NMax(FinMax(B.lx \o B.lg), FinMax(B.ux \o B.ug))))), u))
     /\ Say("cost", NClose(o.cost, val.f, val.tol, u))
     /\ \A c \in 1..Len(Tr.cb) : LET b == Tr.cb[c] IN
          Say("callback", b.iter \in 1..n /\ b.x = After(b.iter).x /\ b.lam = After(b.iter).lam)
\* an earlier iterate that was clearly within tolerance would have stopped the solver
NotYet(k) ==
  LET e == Ev[k]  z == Ev[k + 1]  val == Values(z.x)
      under(a, b) == NLt(a, NMul(b, "0.999"))
  IN Say("went on after convergence", ~(under(VNormInf(VSub(z.x, e.x)), set.ep) /\ under(VNormInf(VSub(z.lam, e.lam)), set.ed) /\ under(NAdd(ViolMax(B, val, z.x), val.tol), set.ep)))

Judge(k) ==
  CASE Tr.asp = "qp" -> Posed(k) /\ (IF k = 1 THEN Say("start", Ev[1].x = Tr.x0 /\ Ev[1].lam = Tr.l0) ELSE TRUE)
    [] Tr.asp = "step" -> Stepped(k)
    [] Tr.asp = "end" -> IF k = Len(Ev) THEN EndOk ELSE NotYet(k)
TInit == t \in 1..Len(Traces) /\ l = 1
TNext == l <= Len(Ev) /\ Judge(l) /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, l>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
