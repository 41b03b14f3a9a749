-------------------------------- MODULE Nlp --------------------------------
(* A nonlinear program given by straight-line programs: a cost, equalities   *)
(* and inequalities over variables x and parameters q, with multipliers      *)
(* lam = (equalities, inequalities, variable bounds).                        *)
EXTENDS Jet
\* P: [prog, cost, eq, ineq] where cost is a register and eq, ineq are sequences of registers
Regs(P, x, q) == Run(P.prog, x, q)
Outs(r, idx) == [i \in 1..Len(idx) |-> r[idx[i]]]
Cost(P, r) == r[P.cost]
Eqs(P, r) == Outs(r, P.eq)
Ineqs(P, r) == Outs(r, P.ineq)
Cons(P, r) == Eqs(P, r) \o Ineqs(P, r)
Vals(js) == [i \in 1..Len(js) |-> js[i].v]
Jac(js) == [i \in 1..Len(js) |-> js[i].g]
\* Lagrangian as a jet: scale * cost + lam' constraints + lam_box' x
RECURSIVE Weighted(_, _, _)
Weighted(js, lam, acc) == IF js = <<>> THEN acc ELSE Weighted(Tail(js), Tail(lam), JAdd(acc, JScale(Head(lam), Head(js))))
Lagr(P, r, x, lam, scale) ==
  LET c == Cons(P, r)  n == Len(x)
      box == [v |-> VDot(SubSeq(lam, Len(c) + 1, Len(lam)), x), g |-> SubSeq(lam, Len(c) + 1, Len(lam)), h |-> ZeroMat(n)]
  IN Weighted(c, SubSeq(lam, 1, Len(c)), JAdd(JScale(scale, Cost(P, r)), box))
=============================================================================
