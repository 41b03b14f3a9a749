------------------------------- MODULE Filter -------------------------------
(* The line-search filter: a bounded memory of (objective, violation) pairs. *)
(* A point is acceptable when no stored pair is at least as good in both     *)
(* measures, up to the margin.  Adding a point forgets the pairs it          *)
(* dominates and, when the filter is full, the oldest pair.                  *)
EXTENDS Num
Pair(f, c) == <<f, c>>
Dominates(a, b) == NLeq(a[1], b[1]) /\ NLeq(a[2], b[2])
\* E is a sequence of pairs, newest first
AddTo(E, p, cap) ==
  LET keep == SelectSeq(E, LAMBDA e : ~Dominates(p, e))
      room == IF Len(keep) >= cap THEN SubSeq(keep, 1, Len(keep) - 1) ELSE keep
  IN <<p>> \o room
RemoveOldest(E) == SubSeq(E, 1, Len(E) - 1)
IsDominated(E, p) == \E i \in 1..Len(E) : Dominates(E[i], p)
Margin(e, beta) == <<NSub(e[1], NMul(beta, e[2])), NSub(e[2], NMul(beta, e[2]))>>
Acceptable(E, p, beta) == ~\E i \in 1..Len(E) : Dominates(Margin(E[i], beta), p)
SetOf(E) == {E[i] : i \in 1..Len(E)}
=============================================================================
