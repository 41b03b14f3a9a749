------------------------------ MODULE Functors ------------------------------
(* The stand-alone collocation functors.  They are the transcription of Ocp  *)
(* for autonomous problems on any Gauss-Lobatto family, with the parameters  *)
(* held constant: derivatives are taken with respect to states and controls, *)
(* and the columns of the parameters vanish.  The running cost is weighted   *)
(* by the quadrature of the whole horizon, the terminal cost is a function   *)
(* of the first node of the decision vector.  A functor has no state: its    *)
(* results are functions of the trajectory and the interval.                 *)
EXTENDS Ocp
Frozen(dec, v) == Eager([c \in 1..Len(dec) |-> IF dec[c][1] = 0 THEN "0" ELSE v[c]])
FrozenRows(dec, m) == Eager([r \in 1..Len(m) |-> [c \in 1..Len(dec) |-> IF dec[c][1] = 0 THEN "0" ELSE m[r][c]]])
FrozenBoth(dec, m) == Eager([r \in 1..Len(m) |-> [c \in 1..Len(dec) |-> IF dec[c][1] = 0 \/ dec[r][1] = 0 THEN "0" ELSE m[r][c]]])
\* all results at once
Results(D, P, dec, dm, w, t0, tf, z) ==
  LET ts == Ts(D, t0, tf)
      J == NodeJets(D, P, w, t0, tf, z, <<>>)
  IN [f |-> CostVal(J), g |-> Frozen(dec, CostGrad(D, dec, J)), ch |-> FrozenBoth(dec, CostHess(D, dec, J)),
      ce |-> EqVals(D, dm, ts, J, z), je |-> FrozenRows(dec, EqJac(D, dec, dm, ts, J)), ci |-> IneqVals(D, J), mag |-> MaxMag(J, 1)]
=============================================================================
