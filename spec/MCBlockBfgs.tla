---------------------------- MODULE MCBlockBfgs ----------------------------
(* The damped quasi-Newton update on a small transcription, over all         *)
(* sequences of integer steps and gradient changes: the matrix stays         *)
(* symmetric and on its pattern; while the pattern is full (one node's       *)
(* variables only) it stays positive definite and satisfies the (damped)     *)
(* secant condition; a null step leaves it unchanged.                        *)
EXTENDS Ocp, TLC
CONSTANTS NX, NU, NODES, NP, Vals, Depth
D == [nx |-> NX, nu |-> NU, np |-> NP, nd |-> 0, ng |-> 0, N |-> NODES - 1, S |-> 1]
Dec == DecodeAll(D)
n == NumVar(D)
Eps == "2.22e-16"
V3 == {-1, 0, 2}
VARIABLES Hm, last, d
vars == <<Hm, last, d>>
Vec == [1..n -> Vals]
Init == Hm = [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN "2" ELSE IF InPattern(Dec[a], Dec[b]) THEN "0.5" ELSE "0"]] /\ last = <<>> /\ d = 0
Update(H, s, y) == LET v == Eager(MVec(H, s))  r == Eager(Damped(s, y, v)) IN IF NLt(VDot(s, r), Eps) THEN H ELSE BlockBfgs(Dec, H, s, r, v)
Num_(f) == [i \in 1..n |-> NOf(f[i])]
Next == d < Depth /\ d' = d + 1 /\ \E s \in Vec : \E y \in Vec : last' = <<Num_(s), Num_(y), Hm>> /\ Hm' = Update(Hm, Num_(s), Num_(y))
Spec == Init /\ [][Next]_vars
Shape == \A a \in 1..n : \A b \in 1..n : NClose(Hm[a][b], Hm[b][a], "1e-25", "1e-25") /\ (InPattern(Dec[a], Dec[b]) \/ NEq(Hm[a][b], "0"))
FullPattern == \A a \in 1..n : \A b \in 1..n : InPattern(Dec[a], Dec[b])
Definite == FullPattern => MPosDef(Hm, "0")
\* a step confined to one node's variables keeps that node's block positive definite
OneNode(s) == \E k \in 1..NODES : \A i \in 1..n : NEq(s[i], "0") \/ Dec[i][1] = k
Secant == (last # <<>>) => LET s == last[1]  y == last[2]  v == Eager(MVec(last[3], s))  r == Eager(Damped(s, y, v)) IN
  IF NLt(VDot(s, r), Eps) THEN Hm = last[3]
  ELSE /\ (FullPattern => VClose(MVec(Hm, s), r, "1e-20", "1e-20"))
       /\ NLeq(NMul("0.1999999", VDot(s, v)), VDot(s, r))
       /\ (NP = 0 /\ OneNode(s)) => LET k == CHOOSE q \in 1..NODES : \A i \in 1..n : NEq(s[i], "0") \/ Dec[i][1] = q
                                        idx == SelectSeq([i \in 1..n |-> i], LAMBDA i : Dec[i][1] = k)
                                        sub(m) == [a \in 1..Len(idx) |-> [b \in 1..Len(idx) |-> m[idx[a]][idx[b]]]]
                                    IN MPosDef(sub(last[3]), "0") => MPosDef(sub(Hm), "0")
=============================================================================
