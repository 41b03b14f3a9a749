----------------------------- MODULE MCSpectral -----------------------------
(* The tables defined by Spectral have the properties their users rely on,   *)
(* for every order up to MaxN and every polynomial degree they are meant for *)
(* (checked on monomials, which suffices by linearity).                      *)
EXTENDS Spectral, TLC
CONSTANT MaxN
VARIABLES fam, N, k
vars == <<fam, N, k>>
Init == fam \in {"cheb", "leg"} /\ N \in 1..MaxN /\ k = 0
Next == k < 2 * N /\ k' = k + 1 /\ UNCHANGED <<fam, N>>
Spec == Init /\ [][Next]_vars
Eps == "1e-24"
NodesFine == k > 0 \/ LET xs == Nodes(fam, N) IN
  /\ Len(xs) = N + 1
  /\ \A i \in 1..N : IF fam = "cheb" THEN NLt(xs[i + 1], xs[i]) ELSE NLt(xs[i], xs[i + 1])
  /\ {xs[1], xs[N + 1]} = {"1", "-1"} \/ (NClose(NMul(xs[1], xs[N + 1]), "-1", Eps, "0"))
  /\ \A i \in 2..N : NClose(PEval(PDeriv(Basis(fam, N)), xs[i]), "0", Eps, "0")      \* extrema of the N-th basis polynomial
  /\ \A i \in 1..(N + 1) : NClose(xs[i], NNeg(xs[N + 2 - i]), Eps, "0")
Differentiates == k > N \/ LET xs == Nodes(fam, N) IN
  VClose(MVec(DMat(xs), [i \in 1..(N + 1) |-> PEval(PMono(k), xs[i])]), [i \in 1..(N + 1) |-> PEval(PDeriv(PMono(k)), xs[i])], Eps, "0")
Integrates == LET xs == Nodes(fam, N) IN
  (k <= N \/ (fam = "leg" /\ k < 2 * N)) => NClose(Quadrature(xs, IntWeights(xs), PMono(k), "-0.5", "2"), PInt(PMono(k), "-0.5", "2"), "1e-20", Eps)
Orthogonal == k > N \/ \A m \in 0..N : NClose(NMul(NormFactors(fam, N)[k + 1], Gram(fam, N, k, m)), IF m = k THEN "1" ELSE "0", Eps, "0")
Cardinal == k > N \/ LET L == Lagrange(Nodes(fam, N)) IN \A i \in 1..(N + 1) : NClose(PEval(L[k + 1], Nodes(fam, N)[i]), IF i = k + 1 THEN "1" ELSE "0", Eps, "0")
=============================================================================
