------------------------------ MODULE LqrTrace ------------------------------
(* Conformance of recorded calls of the Riccati kernels and of lqr.          *)
EXTENDS Lqr, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev
U == "2.3e-16"
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Nm(m) == NMul(NOf(Len(m)), MNormMax(m))
One(x) == NMax("1", x)
\* A solution that vanishes is reached in the limit, so a small fraction of the size that F and G suggest is not told from zero.
Natural(A, B) == IF NLeq(MNormMax(B), "0") THEN NDiv("1", NMax(MNormMax(A), "1e-30")) ELSE NDiv(MNormMax(A), MNormMax(B))
Big(x, nat) == NMax(x, NMul("1e-10", nat))
Dims(m, r, c) == Len(m) = r /\ \A i \in 1..r : Len(m[i]) = c
Pinv(e) == /\ Say("shape of the pseudo-inverse", Dims(e.P, Len(e.A[1]), Len(e.A)))
           /\ Say("Penrose conditions", Penrose(e.A, e.P, NMul(NMul("200", U), One(NMul(NMul(NOf(Len(e.A) + Len(e.A[1])), MNormMax(e.A)), MNormMax(e.P))))))
Lyap(e) == Say("Lyapunov equation", Dims(e.X, Len(e.A), Len(e.A)) /\ Small(LyapRes(e.A, e.Q, e.X), NMul(NMul("1000", U), NAdd(MNormMax(e.Q), NMul(Nm(e.A), MNormMax(e.X))))))
Grid == {"1e-5"} \cup {NDiv(NOf(k), "50") : k \in 1..100}
Ls(e) == /\ Say("step length in range", NFin(e.t) /\ NLeq("1e-5", e.t) /\ NLeq(e.t, "2"))
         /\ Say("step length minimises the residual",
                LET f == Quartic(e.a, e.b, e.c, e.t) IN
                \A s \in Grid : NLeq(f, NAdd(NMul(Quartic(e.a, e.b, e.c, s), "1.000001"), NMul("1e-9", NAdd(e.a, e.c)))))
MAbs(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> NAbs(m[i][j])]]
ResTol(A, B, C, X) == LET x == MAbs(X) big == Big(MNormMax(X), Natural(A, B)) IN
  NMul("1e-7", NAdd(NAdd(MNormMax(C), NMul(big, Nm(A))), MNormMax(MMul(MMul(x, MAbs(B)), x))))
Loop(A, B, X) == MSub(A, MMul(B, X))
Care(e) == /\ Say("Riccati equation", Dims(e.X, Len(e.A), Len(e.A)) /\ Small(CareRes(e.A, e.B, e.C, e.X), ResTol(e.A, e.B, e.C, e.X)))
           /\ Say("Riccati solution is symmetric", Small(MSub(e.X, MTr(e.X)), NMul("1e-7", Big(MNormMax(e.X), Natural(e.A, e.B)))))
           /\ Say("stable closed loop", Stable(Loop(e.A, e.B, e.X)))
Init0(e) == Say("stabilising initial guess", Dims(e.X, Len(e.A), Len(e.A)) /\ MFin(e.X) /\ Stable(Loop(e.A, e.B, e.X)))
Lqr_(e) ==
  LET n == Len(e.F) m == Len(e.R)
      SG == MAdd(MMul(e.S, e.G), e.M)
      W == MMul(SG, MMul(Inverse(e.R), MTr(SG)))
      FS == MMul(MTr(e.F), e.S)
      ns == Big(MNormMax(e.S), Natural(e.F, MMul(e.G, MMul(Inverse(e.R), MTr(e.G)))))
      mag == NAdd(NAdd(MNormMax(e.Q), MNormMax(W)), NMul("2", NMul(Nm(e.F), ns)))
      \* the size of the solution; weights that cancel leave a solution of rounding size
      sc == NAdd(ns, NDiv(NMul("1e-6", MNormMax(e.Q)), NMax(MNormMax(e.F), "1e-30")))
  IN IF e.accept THEN
       /\ Say("shape of the solution", Dims(e.S, n, n) /\ Dims(e.K, m, n))
       /\ Say("Riccati equation of the regulator", Small(MSub(MAdd(MAdd(FS, MTr(FS)), e.Q), W), NMul("1e-7", mag)))
       /\ Say("cost matrix is symmetric", Small(MSub(e.S, MTr(e.S)), NMul("1e-7", sc)))
       /\ Say("cost matrix is positive semidefinite", MPosDef(MAdd(Sym(e.S), MScale(NMul("1e-6", sc), Id(n))), "0"))
       /\ Say("gain", Small(MSub(MMul(e.R, e.K), MTr(SG)), NMul("1e-9", NAdd(NMul(Nm(e.R), MNormMax(e.K)), NAdd(MNormMax(e.M), NMul(Nm(e.G), ns))))))
       /\ Say("closed loop of the regulator is stable", Stable(MSub(e.F, MMul(e.G, e.K))))
     ELSE Say("rejected weights give no solution", e.S = <<>> /\ e.K = <<>>)
Match(e) == CASE e.op = "pinv" -> Pinv(e) [] e.op = "lyap" -> Lyap(e) [] e.op = "ls" -> Ls(e) [] e.op = "init" -> Init0(e)
              [] e.op = "care" -> Care(e)
              [] e.op = "newton" -> (IF Stable(Loop(e.A, e.B, e.X0)) THEN Care(e) ELSE TRUE)
              [] e.op = "lqr" -> Lqr_(e)
TInit == t \in 1..Len(Traces) /\ l = 1
TNext == l <= Len(Ev) /\ Match(Ev[l]) /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, l>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
