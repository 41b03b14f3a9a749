------------------------------ MODULE MCFilter ------------------------------
(* All histories of the filter over a grid of points.  Complete histories    *)
(* are printed and replayed into the implementation.                         *)
EXTENDS Filter, TLC, Json
CONSTANTS Top, Cap, MaxLen, Beta, EmitHist
VARIABLES E, hist, dropped
vars == <<E, hist, dropped>>
Points == {Pair(NOf(i), NOf(j)) : i \in 0..Top, j \in 0..Top}
Init == E = <<>> /\ hist = <<>> /\ dropped = FALSE
Add == \E p \in Points : /\ hist' = Append(hist, <<"add", p[1], p[2]>>)
                         /\ E' = AddTo(E, p, Cap)
                         /\ dropped' = (dropped \/ Len(E') # 1 + Len(SelectSeq(E, LAMBDA e : ~Dominates(p, e))))
Clear == E # <<>> /\ E' = <<>> /\ hist' = Append(hist, <<"clear">>) /\ dropped' = TRUE
Remove == E # <<>> /\ E' = RemoveOldest(E) /\ hist' = Append(hist, <<"remove">>) /\ dropped' = TRUE
Next == Len(hist) < MaxLen /\ (Add \/ Clear \/ Remove)
Spec == Init /\ [][Next]_vars
Bounded == Len(E) <= Cap
NewestKept == (hist # <<>> /\ hist[Len(hist)][1] = "add") => E[1] = Pair(hist[Len(hist)][2], hist[Len(hist)][3])
NoneDominatedByNewer == \A i, j \in 1..Len(E) : i < j => ~Dominates(E[i], E[j])
\* stored points, and all earlier ones until something is forgotten for lack of room, are rejected
StoredRejected == \A i \in 1..Len(E) : ~Acceptable(E, E[i], Beta) /\ IsDominated(E, E[i])
PastRejected == ~dropped => \A i \in 1..Len(hist) : hist[i][1] = "add" => ~Acceptable(E, Pair(hist[i][2], hist[i][3]), Beta)
\* the margin only rejects more
MarginStricter == \A p \in Points : Acceptable(E, p, Beta) => ~IsDominated(E, p)
Emit == (EmitHist /\ Len(hist) = MaxLen) => PrintT("HIST " \o ToJson(hist))
=============================================================================
