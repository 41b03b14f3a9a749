------------------------------ MODULE Adapter ------------------------------
(* A nonlinear program handed to an external solver by callbacks.  The user  *)
(* owns the data (bounds, parameters, starting point); the solver asks for   *)
(* dimensions, bounds, a starting point, the structure of the derivatives,   *)
(* then evaluates at points of its choice and finally delivers a solution,   *)
(* which is the starting point of the next run.                              *)
(*                                                                           *)
(* The solver knows two nonnegative multipliers per variable bound, zl and   *)
(* zu; the library keeps their difference: its dual vector is                *)
(* (constraints, variables) and its Lagrangian adds  bounddual' x.           *)
EXTENDS Num
Box(lam, nc) == SubSeq(lam, nc + 1, Len(lam))
Head_(lam, nc) == SubSeq(lam, 1, nc)
LowerDual(lam, nc) == [i \in 1..(Len(lam) - nc) |-> NMax("0", NNeg(lam[nc + i]))]
UpperDual(lam, nc) == [i \in 1..(Len(lam) - nc) |-> NMax("0", lam[nc + i])]
Join(l, zl, zu) == l \o [i \in 1..Len(zl) |-> NSub(zu[i], zl[i])]
ZerosN(n) == [i \in 1..n |-> "0"]
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NEq(a[i], b[i])
\* the state of the library's side
Fresh(nv, ne, ni, nq, hor) ==
  [lbx |-> [i \in 1..nv |-> "-inf"], ubx |-> [i \in 1..nv |-> "inf"], lbg |-> [i \in 1..ni |-> "-inf"], ubg |-> [i \in 1..ni |-> "inf"],
   x |-> ZerosN(nv), lam |-> ZerosN(nv + ne + ni), q |-> ZerosN(nq), hor |-> hor]
\* equalities come first and are fixed at zero
GLower(s, ne) == ZerosN(ne) \o s.lbg
GUpper(s, ne) == ZerosN(ne) \o s.ubg
Guess(s, x, lam) == [s EXCEPT !.x = x, !.lam = lam]
Deliver(s, x, l, zl, zu) == [s EXCEPT !.x = x, !.lam = Join(l, zl, zu)]
=============================================================================
