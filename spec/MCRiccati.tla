----------------------------- MODULE MCRiccati -----------------------------
(* The Riccati solver as a transition system: Bass initial guess, symmetric  *)
(* correction, then Newton steps X := X + t H.  Any step length in (0, 2)    *)
(* that does not increase the residual keeps the closed loop stable; the     *)
(* minimising one converges.  All systems over small grids.                  *)
EXTENDS Lqr, TLC, FiniteSets
CONSTANTS Entries, Inputs, Weights, Steps, MaxSteps, Best
VARIABLES A, g, C, X, phase, k, last
vars == <<A, g, C, X, phase, k, last>>
EntriesQ == {-1, 0, 2}
EntriesD == {-2, -1, 0, 1}
InputsQ == {<<0, 1>>, <<1, -1>>, <<0, 0>>}
InputsD == {<<0, 1>>, <<1, 0>>, <<1, -1>>, <<2, 1>>, <<0, 0>>}
WeightsQ == {<<1, 0, 1>>, <<2, 0, 0>>, <<0, 0, 0>>}
WeightsD == {<<1, 0, 1>>, <<2, 0, 0>>, <<2, -1, 3>>, <<0, 0, 0>>}
\* (weights with positive definite matrix: the minimising step is required to converge)
Am == <<<<NOf(A[1]), NOf(A[2])>>, <<NOf(A[3]), NOf(A[4])>>>>
Bm == VOuter(<<NOf(g[1]), NOf(g[2])>>, <<NOf(g[1]), NOf(g[2])>>)
Cm == <<<<NOf(C[1]), NOf(C[2])>>, <<NOf(C[2]), NOf(C[3])>>>>
\* stabilisable: the modes that the input does not reach are stable (integer arithmetic)
StableI(a) == a[1] + a[4] < 0 /\ a[1] * a[4] - a[2] * a[3] > 0
Stabilisable(a, u) ==
  LET v == <<a[1] * u[1] + a[2] * u[2], a[3] * u[1] + a[4] * u[2]>> IN
  IF u = <<0, 0>> THEN StableI(a)
  ELSE IF u[1] * v[2] # u[2] * v[1] THEN TRUE
  ELSE LET lam == IF u[1] # 0 THEN v[1] \div u[1] ELSE v[2] \div u[2] IN a[1] + a[4] - lam < 0   \* v = lam u; the other mode
Init == /\ A \in Entries \X Entries \X Entries \X Entries /\ g \in Inputs /\ C \in Weights
        /\ Stabilisable(A, g)
        /\ X = <<>> /\ phase = "bass" /\ k = 0 /\ last = "inf"
\* pseudo-inverse of a symmetric semidefinite 2 x 2 matrix
PInv2(z) == LET d == NSub(NMul(z[1][1], z[2][2]), NMul(z[1][2], z[2][1])) tr == MTrace(z) IN
            IF NLeq(NAbs(tr), "1e-25") THEN MScale("0", z)
            ELSE IF NLeq(NAbs(d), NMul("1e-25", NMul(tr, tr))) THEN MScale(NDiv("1", NMul(tr, tr)), z) ELSE Inverse(z)
Shift == NAdd(NMax(NAdd(NAbs(Am[1][1]), NAbs(Am[1][2])), NAdd(NAbs(Am[2][1]), NAbs(Am[2][2]))), "0.5")
Bass == /\ phase = "bass" /\ phase' = "fix"
        /\ X' = MMul(Bm, PInv2(Sym(BassGain(Am, Bm, Shift))))
        /\ UNCHANGED <<A, g, C, k, last>>
Loop == MSub(Am, MMul(Bm, X))
Fix == /\ phase = "fix" /\ phase' = "newton"
       /\ X' = Sym(LyapSolve(MTr(Loop), MScale("-1", MAdd(MMul(MMul(MTr(X), Bm), X), MScale("0.5", Id(2))))))
       /\ UNCHANGED <<A, g, C, k>> /\ last' = "inf"
R == CareRes(Am, Bm, Cm, X)
Newton == /\ phase = "newton" /\ k < MaxSteps
          /\ LET H == Sym(NewtonDir(Am, Bm, Cm, X))
                 V == MMul(MMul(H, Bm), H)
                 a == Frob2(R) b == MTrace(MMul(R, V)) c == Frob2(V)
                 ok == {t \in Steps : NLeq(Quartic(a, b, c, t), a)}
                 pick == IF Best THEN {t \in ok : \A s \in Steps : NLeq(Quartic(a, b, c, t), Quartic(a, b, c, s))} ELSE ok
             IN \E t \in pick : X' = MAdd(X, MScale(t, H)) /\ last' = a
          /\ k' = k + 1 /\ UNCHANGED <<A, g, C, phase>>
Next == Bass \/ Fix \/ Newton
Spec == Init /\ [][Next]_vars
\* the Bass gain and every iterate stabilise
AlwaysStable == X # <<>> => Stable(Loop)
AlwaysSymmetric == phase = "newton" => Small(MSub(X, MTr(X)), "1e-20")
ResidualDecreases == (phase = "newton" /\ last # "inf") => NLeq(Frob2(R), NAdd(NMul(last, "1.0000000001"), "1e-25"))
\* the quartic is the residual after the step
Predicts == phase = "newton" =>
  LET H == Sym(NewtonDir(Am, Bm, Cm, X)) V == MMul(MMul(H, Bm), H)
      a == Frob2(R) b == MTrace(MMul(R, V)) c == Frob2(V)
  IN \A t \in Steps : NClose(Frob2(CareRes(Am, Bm, Cm, MAdd(X, MScale(t, H)))), Quartic(a, b, c, t), "1e-20", "1e-15")
\* a positive definite weight: the minimising steps reach the solution
Converges == (Best /\ k = MaxSteps /\ C = <<1, 0, 1>>) => NLeq(Frob2(R), "1e-10")
\* the full step dominates from below once it has been taken: X >= the solution, so X is positive semidefinite
NonNegative == (phase = "newton" /\ C = <<1, 0, 1>> /\ Best /\ k = MaxSteps) => MPosDef(MAdd(X, MScale("1e-9", Id(2))), "0")
=============================================================================
