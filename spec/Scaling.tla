------------------------------ MODULE Scaling ------------------------------
(* Diagonal scaling of a quadratic program: positive D (variables), E        *)
(* (constraints) and c (cost).  d = [H, h, A, al, au, lx, ux].               *)
EXTENDS Num
Factors(D, E, c) == [D |-> D, E |-> E, c |-> c]
Unit(n, m) == Factors(VConst(n, "1"), VConst(m, "1"), "1")
Positive(F) == /\ NFin(F.c) /\ NLt("0", F.c)
               /\ \A i \in 1..Len(F.D) : NFin(F.D[i]) /\ NLt("0", F.D[i])
               /\ \A i \in 1..Len(F.E) : NFin(F.E[i]) /\ NLt("0", F.E[i])
VInv(v) == [i \in 1..Len(v) |-> NDiv("1", v[i])]
Inverse(F) == Factors(VInv(F.D), VInv(F.E), NDiv("1", F.c))
\* a bound of zero stays zero and an infinite one stays infinite under positive factors
ScaleHess(H, F) == [i \in 1..Len(H) |-> [j \in 1..Len(H) |-> NMul(F.c, NMul(F.D[i], NMul(H[i][j], F.D[j])))]]
ScaleQp(d, F) ==
  [H |-> ScaleHess(d.H, F), h |-> VScale(F.c, VMul(F.D, d.h)),
   A |-> [i \in 1..Len(d.A) |-> [j \in 1..Len(d.h) |-> NMul(F.E[i], NMul(d.A[i][j], F.D[j]))]],
   al |-> VMul(F.E, d.al), au |-> VMul(F.E, d.au), lx |-> VDiv(d.lx, F.D), ux |-> VDiv(d.ux, F.D)]
UnscaleQp(d, F) == ScaleQp(d, Inverse(F))
\* solutions; the dual is <<constraint multipliers, box multipliers>>
ScaleX(x, F) == VDiv(x, F.D)
ScaleY(y, F) == LET m == Len(F.E) IN [i \in 1..Len(y) |-> IF i <= m THEN NDiv(NMul(F.c, y[i]), F.E[i]) ELSE NMul(F.c, NMul(y[i], F.D[i - m]))]
UnscaleX(x, F) == VMul(x, F.D)
UnscaleY(y, F) == LET m == Len(F.E) IN [i \in 1..Len(y) |-> IF i <= m THEN NDiv(NMul(y[i], F.E[i]), F.c) ELSE NDiv(y[i], NMul(F.c, F.D[i - m]))]
=============================================================================
