--------------------------- MODULE MCQuasiNewton ---------------------------
(* The quasi-Newton updates over all sequences of small integer steps and    *)
(* gradient changes: symmetry; the damped update stays positive definite and *)
(* satisfies the (damped) secant equation; the rank-one update satisfies the *)
(* secant equation or changes nothing, keeps the earlier secant equations    *)
(* when the changes come from one quadratic, and then finds its matrix.      *)
EXTENDS QuasiNewton, TLC
CONSTANTS n, Vals, Depth, Kind     \* Kind: "bfgs", "sr1" (free changes), "quad" (sr1 with changes Q s)
Eps == "2.22e-16"
V2 == {-1, 1}
V3 == {-1, 0, 2}
V4 == {-2, -1, 0, 1, 3}
VARIABLES H, past, d
vars == <<H, past, d>>
Vec == [1..n -> Vals]
Num_(f) == [i \in 1..n |-> NOf(f[i])]
Id(a, b) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN a ELSE b]]
Q == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN NOf(i + 1) ELSE "-0.5"]]
Init == H \in {Id("2", "0.5"), Id("1", "0")} /\ past = <<>> /\ d = 0
Bfgs(s, y) == LET v == Eager(MVec(H, s))  r == Eager(Damped(s, y, v))
              IN IF NLt(VDot(s, r), Eps) \/ NEq(VDot(s, v), "0") THEN H ELSE Eager(RankTwo(H, s, r, v))
Skip(s, w) == NLeq(NAbs(VDot(w, s)), NMul("1e-6", NSqrt(NMul(VDot(w, w), VDot(s, s)))))
Sr1(s, y) == LET w == Eager(VSub(y, MVec(H, s))) IN IF Skip(s, w) THEN H ELSE Eager(RankOne(H, s, w))
Step(s, y) == /\ d < Depth /\ d' = d + 1
              /\ H' = IF Kind = "bfgs" THEN Bfgs(s, y) ELSE Sr1(s, y)
              /\ past' = Append(past, [s |-> s, y |-> y, H |-> H])
Next == \E f \in Vec : LET s == Num_(f) IN IF Kind = "quad" THEN Step(s, Eager(MVec(Q, s))) ELSE \E g \in Vec : Step(s, Num_(g))
Spec == Init /\ [][Next]_vars
Sym == \A i \in 1..n : \A j \in 1..n : NClose(H[i][j], H[j][i], "1e-25", "1e-25")
Definite == Kind = "bfgs" => MPosDef(H, "0")
Last == past[Len(past)]
Secant == past # <<>> =>
  LET s == Last.s  y == Last.y  v == Eager(MVec(Last.H, s)) IN
  IF Kind = "bfgs" THEN LET r == Eager(Damped(s, y, v)) IN
       IF NLt(VDot(s, r), Eps) THEN H = Last.H
       ELSE /\ VClose(MVec(H, s), r, "1e-20", "1e-20")
            /\ (NLeq(NMul("0.2", VDot(s, v)), VDot(s, y)) => r = y)
            /\ NLeq(NMul("0.1999999", VDot(s, v)), VDot(s, r))
  ELSE H = Last.H \/ VClose(MVec(H, s), y, "1e-20", "1e-20")
\* rank-one updates that were not skipped keep all earlier secant equations of a quadratic (up to the loss of digits of the safeguard)
Hereditary == Kind = "quad" => \A k \in 1..Len(past) :
  LET used(j) == (IF j = Len(past) THEN H ELSE past[j + 1].H) # past[j].H IN
  (used(k) /\ \A j \in k..Len(past) : used(j)) => VClose(MVec(H, past[k].s), past[k].y, "1e-15", "1e-15")
=============================================================================
