---------------------------- MODULE MCMpcTime ----------------------------
(* Trajectories at arbitrary times: node values at node times, both segments *)
(* agree at junctions, and trajectories sampled from polynomials up to the   *)
(* collocation order are reproduced everywhere.                              *)
EXTENDS Mpc, TLC
CONSTANTS MaxN, MaxS
VARIABLES D, m, deg, q
vars == <<D, m, deg, q>>
Horizons == {<<"0", "1">>, <<"-1.5", "0.75">>, <<"3.25", "4">>, <<"100", "103">>}
Shape(n, s) == [nx |-> 1, nu |-> 2, np |-> 1, nd |-> 0, ng |-> 0, N |-> n, S |-> s]
Poly(j, time) == IF j = 0 THEN "1" ELSE NPow(time, j)
Sampled(Dm, h, j) ==
  LET n == NumNodes(Dm)
      T == TimeNodes(Dm, h[1], h[2])
      zz == [c \in 1..NumVar(Dm) |-> LET e == Decode(Dm, c) IN IF e[1] = 0 THEN "9" ELSE NMul(NOf(e[2]), Poly(j, NSub(T[e[1]], h[1])))]
  IN [t0 |-> h[1], tf |-> h[2], z |-> Eager(zz)]
Init == \E n \in 1..MaxN, s \in 1..MaxS, h \in Horizons, j \in 0..MaxN, f \in 0..4 :
          /\ j <= n /\ D = Shape(n, s) /\ deg = j
          /\ m = Sampled(D, h, j)
          /\ q = NAdd(h[1], NMul(NDiv(NOf(f), NOf(4)), NSub(h[2], h[1])))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
E == "1e-20"
Increasing == \A k \in 1..(NumNodes(D) - 1) : NLt(TimeOf(D, m, k - 1), TimeOf(D, m, k))
Ends == NClose(TimeOf(D, m, 0), m.t0, E, E) /\ NClose(TimeOf(D, m, NumNodes(D) - 1), m.tf, E, E)
AtNodes == \A k \in 0..(NumNodes(D) - 1) : VClose(AtTime(D, m, USteps(D, m), TimeOf(D, m, k)), UAt(D, m, k), E, E)
Junctions == \A s \in 1..(D.S - 1) : LET time == TimeOf(D, m, s * D.N) IN
               VClose(OnSegment(D, m, XSteps(D, m), s - 1, time), OnSegment(D, m, XSteps(D, m), s, time), E, E)
Reproduced == LET v == Poly(deg, NSub(q, m.t0)) IN
              /\ VClose(AtTime(D, m, XSteps(D, m), q), <<v>>, E, E)
              /\ VClose(AtTime(D, m, USteps(D, m), q), <<NMul("2", v), NMul("3", v)>>, E, E)
Parts == XTraj(D, m) \o UTraj(D, m) \o Params(D, m) = m.z
=============================================================================
