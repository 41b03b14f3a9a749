------------------------------ MODULE AutoDiff ------------------------------
(* What a user of the automatic differentiation scalar relies on: every      *)
(* operation delivers value and derivatives of the composed function (Jet),  *)
(* comparisons look at values only, and small vectors of scalars combine by  *)
(* linear algebra with plain matrices.                                       *)
EXTENDS Jet
Dot(n, a, v) == JSum(n, [i \in 1..Len(a) |-> JScale(a[i], v[i])])
MatVec(n, M, v) == [i \in 1..Len(M) |-> Dot(n, M[i], v)]
Transposed(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> M[j][i]]]
Had(a, b) == [i \in 1..Len(a) |-> JMul(a[i], b[i])]
RECURSIVE JProd(_)
JProd(v) == IF Len(v) = 1 THEN v[1] ELSE JMul(v[1], JProd(Tail(v)))
Compare(a, b) == <<NLt(a, b), NLeq(a, b), NLt(b, a), NLeq(b, a), NEq(a, b), ~NEq(a, b)>>
\* gaussian kernel exp(-|z - y|^2) of jets z and numbers y
Kernel(n, z, y) == LET d == [i \in 1..Len(z) |-> JSub(z[i], JConst(n, y[i]))] IN JExp(JNeg(JSum(n, Had(d, d))))
=============================================================================
