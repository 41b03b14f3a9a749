---------------------------- MODULE ScalingTrace ----------------------------
(* Recorded histories of a preconditioner object: compute() may choose any   *)
(* positive factors and scales by them; the other operations apply the       *)
(* factors in force, which only compute() changes.                           *)
EXTENDS Scaling, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, F
Tr == Traces[t]
Ev == Tr.ev[l]
Say(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Init == t \in 1..Len(Traces) /\ l = 1 /\ F = Unit(Traces[t].n, Traces[t].m)
\* every entry relatively; zeros and infinities exactly
VEq(a, b) == VClose(a, b, Tr.tiny, Tr.u)
MEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VEq(a[i], b[i])
Same(p, q, what) == /\ Say(what \o ": H", MEq(p.H, q.H)) /\ Say(what \o ": h", VEq(p.h, q.h)) /\ Say(what \o ": A", MEq(p.A, q.A))
                    /\ Say(what \o ": al", VEq(p.al, q.al)) /\ Say(what \o ": au", VEq(p.au, q.au))
                    /\ Say(what \o ": lx", VEq(p.lx, q.lx)) /\ Say(what \o ": ux", VEq(p.ux, q.ux))
G == Factors(Ev.D, Ev.E, Ev.c)
Kept == Say("factors changed", VEq(Ev.D, F.D) /\ VEq(Ev.E, F.E) /\ NClose(Ev.c, F.c, "0", Tr.u))
Match ==
  CASE Ev.op = "compute" -> Say("factors", Positive(G) /\ (Tr.ident => G = Unit(Tr.n, Tr.m))) /\ Same(Ev.b, Eager(ScaleQp(Ev.a, G)), "compute")
    [] Ev.op = "scale" -> Kept /\ Same(Ev.b, Eager(ScaleQp(Ev.a, F)), "scale")
    [] Ev.op = "unscale" -> Kept /\ Same(Ev.b, Eager(UnscaleQp(Ev.a, F)), "unscale")
    [] Ev.op = "unhess" -> Kept /\ Same(Ev.b, [Ev.a EXCEPT !.H = Eager(ScaleHess(Ev.a.H, Inverse(F)))], "unscale Hessian")
    [] Ev.op = "scsol" -> Kept /\ Say("scaled primal", VEq(Ev.x1, ScaleX(Ev.x0, F))) /\ Say("scaled dual", VEq(Ev.y1, ScaleY(Ev.y0, F)))
    [] Ev.op = "unsol" -> Kept /\ Say("unscaled primal", VEq(Ev.x1, UnscaleX(Ev.x0, F))) /\ Say("unscaled dual", VEq(Ev.y1, UnscaleY(Ev.y0, F)))
    [] OTHER -> FALSE
Next == /\ l <= Len(Tr.ev)
        /\ UNCHANGED t
        /\ Match
        /\ F' = IF Ev.op = "compute" THEN G ELSE F
        /\ l' = l + 1
TSpec == Init /\ [][Next]_<<t, l, F>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
