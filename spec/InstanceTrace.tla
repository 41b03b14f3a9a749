--------------------------- MODULE InstanceTrace ---------------------------
(* Conformance of recorded histories with Instance: the first outcome of an  *)
(* operand key (recorded on a fresh object) defines the function; every      *)
(* outcome of the same key on the used object must agree.                    *)
EXTENDS Num, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, table      \* table: operand key -> outcome
vars == <<t, l, table>>
Tr == Traces[t]
Ev == Tr.ev                 \* sequence of [key, d: discrete part, x: numbers, fresh: BOOLEAN]
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE

Init == t \in 1..Len(Traces) /\ l = 1 /\ table = <<>>
Known(k) == \E i \in 1..Len(table) : table[i].key = k
Lookup(k) == table[CHOOSE i \in 1..Len(table) : table[i].key = k]
Agree(a, b) == /\ Say("discrete outcome", a.d = b.d)
               /\ Say("numeric outcome", VClose(a.x, b.x, NMul(Tr.tol, NAdd("1", VNormInf(b.x))), Tr.tol))
Fresh == /\ l <= Len(Ev) /\ Ev[l].fresh
         /\ table' = IF Known(Ev[l].key) THEN table ELSE Append(table, Ev[l])
         /\ Known(Ev[l].key) => Agree(Ev[l], Lookup(Ev[l].key))
         /\ l' = l + 1 /\ t' = t
Used == /\ l <= Len(Ev) /\ ~Ev[l].fresh
        /\ Say("operands never run on a fresh object", Known(Ev[l].key))
        /\ Agree(Ev[l], Lookup(Ev[l].key))
        /\ l' = l + 1 /\ UNCHANGED <<t, table>>
Next == Fresh \/ Used
Spec == Init /\ [][Next]_vars

Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
