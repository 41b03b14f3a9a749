--------------------------- MODULE SpectralTrace ----------------------------
(* Conformance of recorded tables, integrals, interpolants, projections and  *)
(* polynomial arithmetic of one basis (fam, N) with Spectral.                *)
EXTENDS Spectral, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, xs
Tr == Traces[t]
Ev == Tr.ev
fam == Tr.fam
N == Tr.N
U == Tr.u        \* unit roundoff of the scalar type times a small constant; W: the same, amplified by the root finder of the Legendre nodes
W == Tr.w
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Abs(p) == [i \in 1..Len(p) |-> NAbs(p[i])]
\* bound on the magnitude of p around [-r, r]
Bound(p, r) == NAdd("1e-30", PEval(Abs(p), NMax("1", NAbs(r))))
Near(a, b, scale, u) == NClose(a, b, NMul(u, scale), "0")
N2 == NOf(N * N + 1)
N4 == NMul(N2, N2)
\* on the end points the grid reaches the ends of the interval
Table(e) ==
  /\ Say("number of nodes", e.nn = N * e.segs + 1 /\ e.order = N)
  /\ Say("nodes", VClose(e.nodes, xs, W, "0"))
  /\ Say("differentiation matrix", MClose(e.D, DMat(xs), NMul(W, N4), W))
  /\ Say("quadrature weights", VClose(e.iw, IntWeights(xs), NMul(W, N2), W))
  /\ Say("projection weights", VClose(e.qw, ProjWeights(fam, N), NMul(W, N2), W))
  /\ Say("normalisation factors", VClose(e.nf, NormFactors(fam, N), NMul(W, N2), W))
Differentiated(e) == Say("derivative at the nodes",
  Len(e.p) > N + 1 \/ \A i \in 1..(N + 1) : Near(e.res[i], PEval(PDeriv(e.p), e.nodes[i]), NMul(N4, Bound(e.p, "1")), W))
\* magnitude of the integrand times the interval
Spread(e) == LET r == NMax(NAbs(e.t0), NAbs(e.tf)) IN NMul(N2, NMul(NAdd("1", r), Bound(e.p, r)))
Integrated(e) ==
  /\ Say("quadrature rule", Near(e.res, Quadrature(xs, IntWeights(xs), e.p, e.t0, e.tf), Spread(e), W))
  /\ Say("integral", Len(e.p) - 1 > (IF fam = "leg" THEN 2 * N - 1 ELSE N) \/ Near(e.res, PInt(e.p, e.t0, e.tf), Spread(e), W))
Interpolated(e) ==
  LET L == Lagrange(xs)
      size == NMul(N4, NMul(Bound(e.p, "1"), VSum([j \in 1..(N + 1) |-> PEval(Abs(L[j]), NMax("1", NAbs(e.x)))])))
  IN /\ Say("Lagrange basis", \A j \in 1..(N + 1) : VClose(e.L[j], L[j], NMul(W, NMul(N4, Bound(L[j], "1"))), W))
     /\ Say("interpolant", Len(e.p) > N + 1 \/
          (Near(e.res[1], PEval(e.p, e.x), size, W) /\ Near(e.res[2], NSub(NMul("2", PEval(e.p, e.x)), "1"), NMul("3", NAdd(size, NMul(NDiv(size, Bound(e.p, "1")), "1"))), W)))
\* on this grid the projection interpolates, hence reproduces every polynomial of degree at most N
Projected(e) ==
  LET s == NDiv(NSub(e.b, e.a), "2")  d == NDiv(NAdd(e.a, e.b), "2")
      expansion == Eager([i \in 1..(N + 1) |-> VSum([n \in 1..(N + 1) |-> NMul(e.coeff[n], Nth(Basis(fam, n - 1), i))])])
      size == NMul(N2, Bound(e.p, NAdd(NAbs(d), NAbs(s))))
  IN /\ Say("projection interpolates", \A i \in 1..(N + 1) : Near(PEval(expansion, xs[i]), PEval(e.p, NAdd(d, NMul(s, xs[i]))), NMul(size, "8"), W))
     /\ Say("projection values", Len(e.p) > N + 1 \/ \A i \in 1..Len(e.xs) :
             LET at == NDiv(NSub(e.xs[i], d), s)  grow == VSum([n \in 1..(N + 1) |-> Bound(Basis(fam, n - 1), at)]) IN
             Near(e.vs[i], PEval(e.p, e.xs[i]), NMul(NDiv(NAdd(NAbs(d), NMul(NAbs(s), "1")), NAbs(s)), NMul(N2, NMul(size, grow))), W))
Evaluated(e) ==
  /\ Say("basis polynomial", Near(e.res, PEval(Basis(fam, e.n), e.x), NMul(N2, Bound(Basis(fam, e.n), e.x)), U))
  /\ Say("highest basis polynomial", Near(e.top, PEval(Basis(fam, N), e.x), NMul(N2, Bound(Basis(fam, N), e.x)), U))
  /\ Say("density", IF fam = "leg" THEN e.dens = "1" ELSE (~NLt(NAbs(e.x), "0.999") \/ NClose(NMul(NMul(e.dens, e.dens), NSub("1", NMul(e.x, e.x))), "1", NMul(U, "1e4"), "0")))
Coefficients(e) == IF fam = "cheb" THEN TRUE ELSE
  Say("basis coefficients", \A n \in 0..N : \A i \in 1..(N + 1) : Near(e.L[i][n + 1], Nth(LegP(n), i), NMul(N2, Bound(LegP(n), "1")), U))
\* product truncated to the common length; derivative padded with a zero
Product(e) == Say("product", \A i \in 1..(N + 1) : Near(e.res[i], PMul(e.p, e.q)[i], NAdd("1e-30", PMul(Abs(e.p), Abs(e.q))[i]), U))
Derived(e) == Say("derivative", \A i \in 1..(N + 1) : Near(e.res[i], Nth(PDeriv(e.p), i), NAdd("1e-30", NAbs(Nth(PDeriv(e.p), i))), U))
Match(e) == CASE e.op = "table" -> Table(e) [] e.op = "diff" -> Differentiated(e) [] e.op = "integ" -> Integrated(e)
              [] e.op = "lag" -> Interpolated(e) [] e.op \in {"proj", "reproj"} -> Projected(e) [] e.op = "basis" -> Evaluated(e)
              [] e.op = "coefs" -> Coefficients(e) [] e.op = "mul" -> Product(e) [] e.op = "der" -> Derived(e)
TInit == t \in 1..Len(Traces) /\ l = 1 /\ xs = Nodes(Traces[t].fam, Traces[t].N)
TNext == l <= Len(Ev) /\ Match(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<t, xs>>
TSpec == TInit /\ [][TNext]_<<t, l, xs>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
