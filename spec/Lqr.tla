-------------------------------- MODULE Lqr --------------------------------
(* Linear-quadratic regulators.  Everything the Riccati solver computes is   *)
(* determined by an equation: the pseudo-inverse by the Penrose conditions,  *)
(* the Lyapunov solution by A X + X A' = Q, the step length by a quartic,    *)
(* the stabilising Riccati solution by its equation together with the        *)
(* stability of the closed loop.  Stability is decided by Lyapunov's         *)
(* theorem: A is stable iff A' W + W A = -I has a positive definite solution.*)
EXTENDS Num
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
MSub(a, b) == MAdd(a, MScale("-1", b))
MSq(m) == Len(m) > 0 /\ \A i \in 1..Len(m) : Len(m[i]) = Len(m)
MFin(m) == \A i \in 1..Len(m) : VFin(m[i])
MTrace(m) == VSum([i \in 1..Len(m) |-> m[i][i]])
Small(m, tol) == MFin(m) /\ NLeq(MNormMax(m), tol)
\* the linear operator X -> A X + X A' on the entries of X, row by row
LyapMat(A) == LET n == Len(A)
                  R(k) == ((k - 1) \div n) + 1
                  C(k) == ((k - 1) % n) + 1
              IN Eager([r \in 1..(n * n) |-> Eager([c \in 1..(n * n) |->
                   NAdd(IF C(r) = C(c) THEN A[R(r)][R(c)] ELSE "0", IF R(r) = R(c) THEN A[C(r)][C(c)] ELSE "0")])])
LyapSolve(A, Q) == LET n == Len(A)
                       x == MSolve(LyapMat(A), Eager([k \in 1..(n * n) |-> Q[((k - 1) \div n) + 1][((k - 1) % n) + 1]]))
                   IN IF x = <<>> THEN <<>> ELSE Eager([i \in 1..n |-> Eager([j \in 1..n |-> x[(i - 1) * n + j]])])
Sym(m) == MScale("0.5", MAdd(m, MTr(m)))
Stable(A) == LET W == LyapSolve(MTr(A), MScale("-1", Id(Len(A)))) IN W # <<>> /\ MPosDef(Sym(W), "0")
\* stable with a margin: the certificate is not too large
StableBy(A, big) == LET W == LyapSolve(MTr(A), MScale("-1", Id(Len(A)))) IN W # <<>> /\ MPosDef(Sym(W), "0") /\ NLeq(MNormMax(W), big)
LyapRes(A, Q, X) == MSub(MAdd(MMul(A, X), MMul(X, MTr(A))), Q)
\* X A + A' X - X B X + C
CareRes(A, B, C, X) == MSub(MAdd(MAdd(MMul(X, A), MMul(MTr(A), X)), C), MMul(MMul(X, B), X))
\* one Newton step: (A - B X)' H + H (A - B X) = - residual
NewtonDir(A, B, C, X) == LyapSolve(MTr(MSub(A, MMul(B, X))), MScale("-1", CareRes(A, B, C, X)))
\* the residual after a step t along H: |(1-t) R - t^2 V|^2, V = H B H
Quartic(a, b, c, t) == NAdd(a, NMul(t, NAdd(NMul("-2", a), NMul(t, NAdd(NSub(a, NMul("2", b)), NMul(t, NAdd(NMul("2", b), NMul(t, c))))))))
Frob2(m) == VSum([i \in 1..Len(m) |-> VDot(m[i], m[i])])
\* Bass: with A + b I antistable, (A + b I) Z + Z (A + b I)' = 2 B B' makes A - B B' Z^-1 stable; B is symmetric here
BassGain(A, B, b) == LET Z == LyapSolve(MAdd(A, MScale(b, Id(Len(A)))), MScale("2", MMul(B, MTr(B)))) IN Z
Inverse(m) == LET n == Len(m)
                  col(j) == MSolve(m, [i \in 1..n |-> IF i = j THEN "1" ELSE "0"])
              IN IF col(1) = <<>> THEN <<>> ELSE MTr([j \in 1..n |-> col(j)])
Penrose(A, P, tol) ==
  LET ap == MMul(A, P) pa == MMul(P, A) na == MNormMax(A) np == MNormMax(P) IN
  /\ Small(MSub(MMul(ap, A), A), NMul(tol, na)) /\ Small(MSub(MMul(pa, P), P), NMul(tol, np))
  /\ Small(MSub(ap, MTr(ap)), tol) /\ Small(MSub(pa, MTr(pa)), tol)
=============================================================================
