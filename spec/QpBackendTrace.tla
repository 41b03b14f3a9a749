-------------------------- MODULE QpBackendTrace ---------------------------
(* Conformance of the OSQP and qpmad adapters, driven by stand-ins for the   *)
(* libraries.                                                                *)
EXTENDS QpBackend, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, b
Tr == Traces[t]
Ev == Tr.ev
Say(what, x) == IF x THEN TRUE ELSE PrintT(<<"MISMATCH", Tr.id, l, what>>) /\ FALSE
Same(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : NEq(x[i], y[i])
SameM(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Same(x[i], y[i])
Match(e) ==
  LET want == Stack(e.H, e.h, e.A, e.al, e.au, e.xl, e.xu)
      \* the data the solver works on under its own rules
      s == e.seen
      got == [H |-> s.H, q |-> s.q, A |-> s.A, l |-> s.l, u |-> s.u]
      next == IF e.warm THEN Warm(b, got) ELSE Cold(b, got)
      a == e.answer  r == e.told
  IN /\ Say("the solver is not initialised", s.ready)
     /\ Say("one run per solve", e.calls = 1)
     /\ b' = next
     /\ Say("Hessian", SameM(s.H, want.H)) /\ Say("gradient", Same(s.q, want.q)) /\ Say("constraint matrix", SameM(s.A, want.A))
     /\ Say("lower bounds", Same(s.l, want.l)) /\ Say("upper bounds", Same(s.u, want.u))
     /\ Say("initial guess", s.warm = e.guess)
     /\ (IF e.guess THEN Say("initial guess", Same(s.wx, e.gx) /\ Same(s.wy, e.gy)) ELSE TRUE)
     \* a cold solve runs with the settings of the moment (those in force since the last initialisation)
     /\ (IF ~e.warm THEN Say("settings", \A k \in DOMAIN e.settings : k \in DOMAIN s.settings /\ NEq(s.settings[k], e.settings[k])) ELSE TRUE)
     /\ Say("solution", Same(r.x, a.x) /\ Same(r.y, a.y))
     /\ Say("status", r.ret = StatusOf(a.status) /\ r.status = r.ret)
     /\ Say("counters", r.iter = a.iter /\ r.updates = a.updates /\ NEq(r.rho, a.rho))
     /\ Say("residuals", NEq(r.prim, a.prim) /\ NEq(r.dual, a.dual))
\* qpmad is memoryless and delivers no multipliers
QpmadMatch(e) ==
  LET s == e.seen IN
  /\ UNCHANGED b
  /\ Say("one run per solve", e.calls = 1)
  /\ Say("Hessian", SameM(s.H, e.H)) /\ Say("gradient", Same(s.q, e.h)) /\ Say("constraint matrix", SameM(s.A, e.A))
  /\ Say("lower bounds", Same(s.al, e.al) /\ Same(s.xl, e.xl)) /\ Say("upper bounds", Same(s.au, e.au) /\ Same(s.xu, e.xu))
  /\ (IF e.guess THEN Say("initial guess", Same(s.x, e.gx)) ELSE TRUE)
  /\ Say("settings", NEq(s.tol, e.eps) /\ s.max = e.max /\ s.hessian = 1)
  /\ Say("solution", Same(e.x, e.ax))
  /\ Say("status", e.ret = QpmadStatusOf(e.astatus) /\ e.status = e.ret)
TInit == t \in 1..Len(Traces) /\ l = 1 /\ b = Empty
TNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED t /\ (IF Tr.kind = "qpmad" THEN QpmadMatch(Ev[l]) ELSE IF ~Ev[l].seen.ready THEN Say("the solver is not initialised", FALSE) /\ UNCHANGED b ELSE Match(Ev[l]))
TSpec == TInit /\ [][TNext]_<<t, l, b>>
Progress == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == \/ Rejected = {}
            \/ (\A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)) /\ FALSE
=============================================================================
