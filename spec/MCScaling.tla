----------------------------- MODULE MCScaling -----------------------------
(* Sequences of scalings of a small problem by arbitrary positive factors:   *)
(* undoing the last one restores the problem, infinite bounds stay infinite, *)
(* and a point is a KKT point of the problem exactly when the scaled point   *)
(* is one of the scaled problem.                                             *)
EXTENDS Scaling, TLC
CONSTANTS Depth, Big
Fac == {"0.5", "1", "3"}
Cst == {"0.25", "7"}
Bnd == {<<"-inf", "inf">>, <<"0", "1">>, <<"1", "1">>, <<"-inf", "2">>}
Hs == {<<<<"2", "1">>, <<"1", "3">>>>, <<<<"0", "0">>, <<"0", "1">>>>}
As == IF Big THEN {<<<<"1", "-2">>>>, <<<<"0", "0">>>>} ELSE {<<<<"1", "-2">>>>}
VARIABLES P, S, F, x, y, k
vars == <<P, S, F, x, y, k>>
Xs == {<<"0", "1">>, <<"1", "0">>, <<"-0.5", "2">>}
Ys == {<<"0", "0", "0">>, <<"1", "0", "-1">>, <<"-2", "3", "0">>}
\* the gradient makes the point stationary in half of the problems
Grad(H, A, z, w) == VNeg(VAdd(MVec(H, z), VAdd(MTVec(2, A, SubSeq(w, 1, 1)), SubSeq(w, 2, 3))))
Init == /\ \E H \in Hs, A \in As, bg \in Bnd, b1 \in Bnd, b2 \in Bnd, z \in Xs, w \in Ys, e \in {"0", "1"} :
             /\ P = [H |-> H, h |-> Eager(VAdd(Grad(H, A, z, w), <<e, "0">>)), A |-> A, al |-> <<bg[1]>>, au |-> <<bg[2]>>, lx |-> <<b1[1], b2[1]>>, ux |-> <<b1[2], b2[2]>>]
             /\ x = z /\ y = w
        /\ S = P /\ F = Unit(2, 1) /\ k = 0
Next == /\ k < Depth /\ k' = k + 1 /\ UNCHANGED <<P, x, y>>
        /\ \E d1 \in Fac, d2 \in Fac, e1 \in Fac, c \in Cst :
             LET G == Factors(<<d1, d2>>, <<e1>>, c)
             IN S' = Eager(ScaleQp(S, G)) /\ F' = Factors(Eager(VMul(F.D, G.D)), Eager(VMul(F.E, G.E)), NMul(F.c, G.c))
Spec == Init /\ [][Next]_vars
VEq(a, b) == VClose(a, b, "1e-25", "1e-25")
SameQp(p, q) == /\ MClose(p.H, q.H, "1e-25", "1e-25") /\ MClose(p.A, q.A, "1e-25", "1e-25")
                /\ VEq(p.h, q.h) /\ VEq(p.al, q.al) /\ VEq(p.au, q.au) /\ VEq(p.lx, q.lx) /\ VEq(p.ux, q.ux)
Composed == SameQp(S, ScaleQp(P, F))
RoundTrip == SameQp(UnscaleQp(S, F), P)
SolRoundTrip == VEq(UnscaleX(ScaleX(x, F), F), x) /\ VEq(UnscaleY(ScaleY(y, F), F), y)
Near(a) == NLeq(NAbs(a), "1e-20")
In(v, l, u) == NLeq(l, NAdd(v, "1e-20")) /\ NLeq(NSub(v, "1e-20"), u)
SignOk(v, l, u, w) == (NLt("1e-20", w) => NFin(u) /\ Near(NSub(v, u))) /\ (NLt(w, "-1e-20") => NFin(l) /\ Near(NSub(v, l)))
Kkt(p, z, w) == /\ \A i \in 1..2 : Near(NAdd(NAdd(VDot(p.H[i], z), p.h[i]), NAdd(NMul(p.A[1][i], w[1]), w[i + 1])))
                /\ In(VDot(p.A[1], z), p.al[1], p.au[1]) /\ SignOk(VDot(p.A[1], z), p.al[1], p.au[1], w[1])
                /\ \A i \in 1..2 : In(z[i], p.lx[i], p.ux[i]) /\ SignOk(z[i], p.lx[i], p.ux[i], w[i + 1])
SameSolutions == Kkt(P, x, y) <=> Kkt(S, ScaleX(x, F), ScaleY(y, F))
BoundClasses == \A i \in 1..2 : (P.lx[i] = "-inf") = ~NFin(S.lx[i]) /\ (P.ux[i] = "inf") = ~NFin(S.ux[i])
=============================================================================
