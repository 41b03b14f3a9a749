------------------------------ MODULE MCMpc ------------------------------
(* All histories of setters, horizon changes and solves up to MaxLen.  Every *)
(* entry holds what the last call that covers it gave it, where the covered  *)
(* entries are stated once more as positions in the vectors.                 *)
EXTENDS Mpc, TLC, Json
CONSTANTS MaxLen, Dims
VARIABLES hist, m
vars == <<hist, m>>
D == IF Dims = 1 THEN [nx |-> 2, nu |-> 3, np |-> 1, nd |-> 2, ng |-> 1, N |-> 2, S |-> 2] ELSE IF Dims = 2 THEN [nx |-> 1, nu |-> 1, np |-> 0, nd |-> 0, ng |-> 2, N |-> 2, S |-> 1]
     ELSE [nx |-> 3, nu |-> 1, np |-> 2, nd |-> 1, ng |-> 0, N |-> 1, S |-> 3]
Dec == DecodeAll(D)
Fields == {"lx", "ux", "lg", "ug", "z", "lam", "d"}
Mark(k, a, c) == ToString(k * 1000 + a * 100 + c)
Args(k, op) == [a \in 1..Len(Writes(op)) |-> [c \in 1..ArgLen(D, Writes(op)[a][2]) |-> Mark(k, a, c)]]
Init == /\ hist = <<>>
        /\ m = [t0 |-> "0", tf |-> "1", lx |-> [c \in 1..Size(D, "lx") |-> "-1"], ux |-> [c \in 1..Size(D, "ux") |-> "-2"], lg |-> [c \in 1..Size(D, "lg") |-> "-3"],
                ug |-> [c \in 1..Size(D, "ug") |-> "-4"], z |-> [c \in 1..Size(D, "z") |-> "-5"], lam |-> [c \in 1..Size(D, "lam") |-> "-6"], d |-> [c \in 1..Size(D, "d") |-> "-7"]]
Next == /\ Len(hist) < MaxLen
        /\ LET k == Len(hist) + 1 IN
           \/ \E op \in {o \in Setters : Offers(D, o)} : m' = Set(D, Dec, m, op, Args(k, op)) /\ hist' = Append(hist, op)
           \/ m' = SetLimits(m, Mark(k, 1, 1), Mark(k, 1, 2)) /\ hist' = Append(hist, "t")
           \/ /\ m' = Solved(m, [c \in 1..Size(D, "z") |-> Mark(k, 1, c)], [c \in 1..Size(D, "lam") |-> Mark(k, 2, c)])
              /\ hist' = Append(hist, "solve")
Spec == Init /\ [][Next]_vars

\* the same once more by positions: [field, first, last, period (0: one value each), argument]
NX == D.nx * NumNodes(D)
NU == D.nu * NumNodes(D)
Pos(f, r, a) == CASE r = "x0" -> [f |-> f, lo |-> NX - D.nx + 1, hi |-> NX, per |-> D.nx, a |-> a] [] r = "xf" -> [f |-> f, lo |-> 1, hi |-> D.nx, per |-> D.nx, a |-> a]
                  [] r = "xb" -> [f |-> f, lo |-> 1, hi |-> NX - D.nx, per |-> D.nx, a |-> a] [] r = "xt" -> [f |-> f, lo |-> 1, hi |-> NX, per |-> NX, a |-> a]
                  [] r = "ub" -> [f |-> f, lo |-> NX + 1, hi |-> NX + NU, per |-> D.nu, a |-> a] [] r = "ut" -> [f |-> f, lo |-> NX + 1, hi |-> NX + NU, per |-> NU, a |-> a]
                  [] r = "pp" -> [f |-> f, lo |-> NX + NU + 1, hi |-> NX + NU + D.np, per |-> D.np, a |-> a]
                  [] r = "gb" -> [f |-> f, lo |-> 1, hi |-> Size(D, f), per |-> D.ng, a |-> a] [] OTHER -> [f |-> f, lo |-> 1, hi |-> Size(D, f), per |-> Size(D, f), a |-> a]
Covering(k, f, c) ==
  IF hist[k] = "t" THEN {}
  ELSE IF hist[k] = "solve" THEN (IF f = "z" THEN {Mark(k, 1, c)} ELSE IF f = "lam" THEN {Mark(k, 2, c)} ELSE {})
  ELSE LET ws == Writes(hist[k])
           ps == {Pos(ws[i][1], ws[i][2], ws[i][3]) : i \in 1..Len(ws)}
       IN {Mark(k, p.a, ((c - p.lo) % p.per) + 1) : p \in {q \in ps : q.f = f /\ q.lo <= c /\ c <= q.hi}}
RECURSIVE Last(_, _, _)
Last(k, f, c) == IF k = 0 THEN {} ELSE LET s == Covering(k, f, c) IN IF s # {} THEN s ELSE Last(k - 1, f, c)
Default(f) == CASE f = "lx" -> "-1" [] f = "ux" -> "-2" [] f = "lg" -> "-3" [] f = "ug" -> "-4" [] f = "z" -> "-5" [] f = "lam" -> "-6" [] f = "d" -> "-7"
LastWins == \A f \in Fields : \A c \in 1..Size(D, f) : LET s == Last(Len(hist), f, c) IN m[f][c] = (IF s = {} THEN Default(f) ELSE CHOOSE v \in s : TRUE)
Shapes == \A f \in Fields : Len(m[f]) = Size(D, f)
\* setters of disjoint parts commute
RegionOf(op) == {<<Writes(op)[i][1], c>> : i \in 1..Len(Writes(op)), c \in 1..100}
Touched(op) == UNION {{<<Writes(op)[i][1], c>> : c \in {x \in 1..Size(D, Writes(op)[i][1]) : Covers(D, Writes(op)[i][2], EntryOf(Dec, Writes(op)[i][1], x))}} : i \in 1..Len(Writes(op))}
Commute == Len(hist) = 0 => \A a, b \in {o \in Setters : Offers(D, o)} : Touched(a) \cap Touched(b) = {} =>
             Set(D, Dec, Set(D, Dec, m, a, Args(1, a)), b, Args(2, b)) = Set(D, Dec, Set(D, Dec, m, b, Args(2, b)), a, Args(1, a))
\* the trajectory is covered by initial and remaining states, controls and parameters, once each
Partition == LET Cov(r) == {c \in 1..NumVar(D) : Covers(D, r, Dec[c])} IN
             /\ Cov("x0") \cap Cov("xb") = {} /\ Cov("x0") \cup Cov("xb") = Cov("xt") /\ Cov("xf") \subseteq Cov("xb")
             /\ Cov("xt") \cap Cov("ub") = {} /\ Cov("ub") = Cov("ut") /\ Cov("pp") \cap (Cov("xt") \cup Cov("ut")) = {} /\ Cov("xt") \cup Cov("ut") \cup Cov("pp") = 1..NumVar(D)
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
=============================================================================
