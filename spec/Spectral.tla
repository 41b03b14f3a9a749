------------------------------ MODULE Spectral ------------------------------
(* Polynomials in one variable, the collocation grids of PolyMPC and what    *)
(* its pseudospectral tables must be.  A polynomial is the sequence of its   *)
(* coefficients, lowest power first.  Differentiation matrices and weights   *)
(* are defined through the Lagrange basis, independently of the closed       *)
(* formulas of the implementation.                                           *)
EXTENDS Num

Nth(p, i) == IF i <= Len(p) THEN p[i] ELSE "0"
PAdd(p, q) == [i \in 1..(IF Len(p) < Len(q) THEN Len(q) ELSE Len(p)) |-> NAdd(Nth(p, i), Nth(q, i))]
PScale(c, p) == [i \in 1..Len(p) |-> NMul(c, p[i])]
PMul(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |->
                 VSum([i \in 1..Len(p) |-> IF k - i + 1 \in 1..Len(q) THEN NMul(p[i], q[k - i + 1]) ELSE "0"])]
PDeriv(p) == IF Len(p) = 1 THEN <<"0">> ELSE [i \in 1..(Len(p) - 1) |-> NMul(NOf(i), p[i + 1])]
RECURSIVE PHorner(_, _, _)
PHorner(p, x, i) == IF i = Len(p) THEN p[i] ELSE NAdd(p[i], NMul(x, PHorner(p, x, i + 1)))
PEval(p, x) == PHorner(p, x, 1)
PAnti(p) == [i \in 1..(Len(p) + 1) |-> IF i = 1 THEN "0" ELSE NDiv(p[i - 1], NOf(i - 1))]
PInt(p, a, b) == LET q == Eager(PAnti(p)) IN NSub(PEval(q, b), PEval(q, a))
PMono(k) == [i \in 1..(k + 1) |-> IF i = k + 1 THEN "1" ELSE "0"]
\* p(s * x + d) as a polynomial in x
RECURSIVE PCompose(_, _, _, _)
PCompose(p, s, d, i) == IF i = Len(p) THEN <<p[i]>> ELSE PAdd(<<p[i]>>, Eager(PMul(<<d, s>>, PCompose(p, s, d, i + 1))))
PSubst(p, s, d) == PCompose(p, s, d, 1)

\* Orthogonal families
RECURSIVE ChebT(_)
ChebT(n) == IF n = 0 THEN <<"1">> ELSE IF n = 1 THEN <<"0", "1">>
            ELSE Eager(PAdd(PMul(<<"0", "2">>, ChebT(n - 1)), PScale("-1", ChebT(n - 2))))
RECURSIVE LegP(_)
LegP(n) == IF n = 0 THEN <<"1">> ELSE IF n = 1 THEN <<"0", "1">>
           ELSE Eager(PAdd(PScale(NDiv(NOf(2 * n - 1), NOf(n)), PMul(<<"0", "1">>, LegP(n - 1))),
                           PScale(NDiv(NOf(1 - n), NOf(n)), LegP(n - 2))))
Basis(fam, n) == IF fam = "cheb" THEN ChebT(n) ELSE LegP(n)

\* Gauss-Lobatto grids: Chebyshev points in descending order; Legendre points (end points and zeros of P_N') ascending
Cgl(N) == Eager([i \in 1..(N + 1) |-> NCosPi(i - 1, N)])
RECURSIVE Newton(_, _, _, _)
Newton(p, dp, x, n) == IF n = 0 THEN x ELSE Newton(p, dp, NSub(x, NDiv(PEval(p, x), PEval(dp, x))), n - 1)
Lgl(N) == LET p == Eager(PDeriv(LegP(N)))  dp == Eager(PDeriv(p))
          IN Eager([i \in 1..(N + 1) |-> IF i = 1 THEN "-1" ELSE IF i = N + 1 THEN "1" ELSE Newton(p, dp, NCosPi(N + 1 - i, N), 9)])
Nodes(fam, N) == IF fam = "cheb" THEN Cgl(N) ELSE Lgl(N)

\* Lagrange basis of a grid, differentiation matrix and interpolatory quadrature weights on [-1, 1]
RECURSIVE RootProduct(_, _, _)
RootProduct(xs, skip, i) == IF i > Len(xs) THEN <<"1">>
                            ELSE IF i = skip THEN RootProduct(xs, skip, i + 1)
                            ELSE Eager(PMul(<<NNeg(xs[i]), "1">>, RootProduct(xs, skip, i + 1)))
Lagrange(xs) == Eager([j \in 1..Len(xs) |-> LET r == RootProduct(xs, j, 1) IN Eager(PScale(NDiv("1", PEval(r, xs[j])), r))])
DMat(xs) == LET L == Lagrange(xs)
            IN Eager([i \in 1..Len(xs) |-> [j \in 1..Len(xs) |-> PEval(PDeriv(L[j]), xs[i])]])
IntWeights(xs) == LET L == Lagrange(xs) IN Eager([j \in 1..Len(xs) |-> PInt(L[j], "-1", "1")])
\* projection weights: discrete inner product, and the factors normalising it on the grid
Pi == "3.14159265358979323846264338327950288419716939937510582097494459"
ProjWeights(fam, N) == IF fam = "cheb" THEN Eager([i \in 1..(N + 1) |-> NDiv(Pi, NOf(IF i \in {1, N + 1} THEN 2 * N ELSE N))])
                       ELSE IntWeights(Lgl(N))
Gram(fam, N, n, m) == LET xs == Nodes(fam, N)  w == ProjWeights(fam, N)
                      IN VSum([i \in 1..(N + 1) |-> NMul(w[i], NMul(PEval(Basis(fam, n), xs[i]), PEval(Basis(fam, m), xs[i])))])
NormFactors(fam, N) == Eager([n \in 1..(N + 1) |-> NDiv("1", Gram(fam, N, n - 1, n - 1))])
Quadrature(xs, w, p, a, b) == LET s == NDiv(NSub(b, a), "2")  d == NDiv(NAdd(a, b), "2")
                              IN NMul(s, VSum([i \in 1..Len(xs) |-> NMul(w[i], PEval(p, NAdd(d, NMul(s, xs[i]))))]))
=============================================================================
