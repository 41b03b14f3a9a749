---------------------------- MODULE FilterTrace ----------------------------
(* Recorded histories of the real filter are behaviours of Filter: contents  *)
(* after every operation, and the answers to all queries.                    *)
EXTENDS Filter, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, E
Tr == Traces[t]
Ev == Tr.ev[l]
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Init == t \in 1..Len(Traces) /\ l = 1 /\ E = <<>>
SamePair(a, b) == NEq(a[1], b[1]) /\ NEq(a[2], b[2])
Same(A, B) == /\ Len(A) = Len(B)
              /\ \A i \in 1..Len(A) : \E j \in 1..Len(B) : SamePair(A[i], B[j])
              /\ \A i \in 1..Len(B) : \E j \in 1..Len(A) : SamePair(A[j], B[i])
After == CASE Ev.op = "add" -> AddTo(E, Pair(Ev.f, Ev.c), Tr.cap)
           [] Ev.op = "clear" -> <<>>
           [] Ev.op = "remove" -> RemoveOldest(E)
Next == /\ l <= Len(Tr.ev)
        /\ UNCHANGED t
        /\ LET F == Eager(After) IN
             /\ Say("contents", Same(F, Ev.E) /\ Ev.E2 = Ev.E)
             /\ \A i \in 1..Len(Tr.q) : Say("acceptable", Ev.acc[i] = Acceptable(F, Tr.q[i], Tr.beta))
             /\ \A i \in 1..Len(Tr.q) : Say("dominated", Ev.dom[i] = IsDominated(F, Tr.q[i]))
             /\ E' = F
        /\ l' = l + 1
TSpec == Init /\ [][Next]_<<t, l, E>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
