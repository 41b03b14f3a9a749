-------------------------------- MODULE Sqp --------------------------------
(* Sequential quadratic programming with an l1 line search.                  *)
(* B holds the bounds [lx, ux, lg, ug]; a point is judged by its values      *)
(* [f, ce, ci] (cost, equalities, inequalities).                             *)
(* One iteration: pose the quadratic subproblem at (x, lam); the inner       *)
(* solver answers with a step p and multipliers y (any answer whatsoever);   *)
(* backtrack; move x by a p and lam by a (y - lam); test.                    *)
EXTENDS Num

Violations(B, val, x) ==
  [i \in 1..Len(val.ce) |-> NAbs(val.ce[i])] \o VMax(VConst(Len(val.ci), "0"), VSub(B.lg, val.ci)) \o VMax(VConst(Len(val.ci), "0"), VSub(val.ci, B.ug))
  \o VMax(VConst(Len(x), "0"), VSub(B.lx, x)) \o VMax(VConst(Len(x), "0"), VSub(x, B.ux))
Viol1(B, val, x) == VSum(Violations(B, val, x))
ViolMax(B, val, x) == VNormInf(Violations(B, val, x))

\* bounds of the subproblem
SubLow(B, val, x) == [al |-> VNeg(val.ce) \o VSub(B.lg, val.ci), lx |-> VSub(B.lx, x)]
SubUpp(B, val, x) == [au |-> VNeg(val.ce) \o VSub(B.ug, val.ci), ux |-> VSub(B.ux, x)]

\* line search: the penalty is the largest multiplier of the subproblem
Mu(y) == VNormInf(y)
Merit(B, val, x, mu) == NAdd(val.f, NMul(mu, Viol1(B, val, x)))
Slope(B, val, grad, x, p, mu) == NSub(VDot(grad, p), NMul(mu, Viol1(B, val, x)))
\* how far the trial value is above the sufficient-decrease line (accepted when not positive)
Excess(phi0, phi, slope, eta, a) == NSub(phi, NAdd(phi0, NMul(NMul(a, eta), slope)))
Trial(tau, j) == NPow(tau, j)
Move(x, a, p) == VAdd(x, VScale(a, p))
\* termination
Converged(pn, dn, viol, set) == NLeq(pn, set.ep) /\ NLeq(dn, set.ed) /\ NLeq(viol, set.ep)
=============================================================================
