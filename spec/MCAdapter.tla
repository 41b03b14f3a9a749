----------------------------- MODULE MCAdapter -----------------------------
(* Design model of Adapter: a user who changes data between runs, and a      *)
(* solver for one variable and one inequality that starts from what it is    *)
(* given and delivers any complementary pair of bound multipliers.           *)
EXTENDS Adapter, TLC
CONSTANT Depth
Vals == {"-1", "0", "2"}
Pos == {"0", "2"}
Pairs == {<<a, b>> \in Pos \X Pos : a = "0" \/ b = "0"}
VARIABLES s, phase, seen, want, n
vars == <<s, phase, seen, want, n>>
None == [lbx |-> <<>>, gl |-> <<>>, x |-> <<>>, l |-> <<>>, zl |-> <<>>, zu |-> <<>>, q |-> <<>>]
\* want: what the user last said or was told, kept independently of the library
Init == s = Fresh(1, 1, 1, 1, <<>>) /\ phase = "idle" /\ seen = None /\ n = 0
        /\ want = [lbx |-> "-inf", lbg |-> "-inf", x |-> "0", l |-> <<"0", "0">>, box |-> "0", q |-> "0"]
User ==
  /\ phase = "idle" /\ UNCHANGED <<phase, seen>>
  /\ \/ \E v \in {"-1", "0"} : s' = [s EXCEPT !.lbx = <<v>>] /\ want' = [want EXCEPT !.lbx = v]
     \/ \E v \in {"-1", "0"} : s' = [s EXCEPT !.lbg = <<v>>] /\ want' = [want EXCEPT !.lbg = v]
     \/ \E v \in {"0", "2"} : s' = [s EXCEPT !.q = <<v>>] /\ want' = [want EXCEPT !.q = v]
Run ==
  /\ phase = "idle" /\ phase' = "asked" /\ seen' = None
  /\ \/ UNCHANGED <<s, want>>
     \/ \E x \in {"-1", "2"}, b \in Vals, e \in Vals : s' = Guess(s, <<x>>, <<e, "0", b>>) /\ want' = [want EXCEPT !.x = x, !.l = <<e, "0">>, !.box = b]
Ask ==
  /\ phase = "asked" /\ phase' = "running" /\ UNCHANGED <<s, want>>
  /\ seen' = [lbx |-> s.lbx, gl |-> GLower(s, 1), x |-> s.x, l |-> Head_(s.lam, 2), zl |-> LowerDual(s.lam, 2), zu |-> UpperDual(s.lam, 2), q |-> s.q]
Finish ==
  /\ phase = "running" /\ phase' = "idle" /\ UNCHANGED seen
  /\ \/ UNCHANGED <<s, want>>       \* the solver gave up without a solution
     \/ \E x \in {"0", "2"}, m \in {"0", "-1"}, p \in Pairs :
          /\ s' = Deliver(s, <<x>>, <<m, m>>, <<p[1]>>, <<p[2]>>)
          /\ want' = [want EXCEPT !.x = x, !.l = <<m, m>>, !.box = NSub(p[2], p[1])]
Next == n < Depth /\ n' = n + 1 /\ (User \/ Run \/ Ask \/ Finish)
Spec == Init /\ [][Next]_vars
\* what the solver was told is what the user said last, or the last solution
Presented == phase = "running" =>
  /\ NEq(seen.lbx[1], want.lbx) /\ Same(seen.gl, <<"0", want.lbg>>) /\ NEq(seen.x[1], want.x) /\ Same(seen.l, want.l) /\ NEq(seen.q[1], want.q)
  /\ NEq(NSub(seen.zu[1], seen.zl[1]), want.box) /\ NLeq("0", seen.zl[1]) /\ NLeq("0", seen.zu[1]) /\ NEq(NMul(seen.zl[1], seen.zu[1]), "0")
\* the translation of the multipliers loses nothing in either direction
RoundTrip ==
  /\ Same(Join(Head_(s.lam, 2), LowerDual(s.lam, 2), UpperDual(s.lam, 2)), s.lam)
  /\ \A p \in Pairs : LET k == Join(<<"0", "0">>, <<p[1]>>, <<p[2]>>) IN NEq(LowerDual(k, 2)[1], p[1]) /\ NEq(UpperDual(k, 2)[1], p[2])
\* a stationary point for the solver is one for the library: c x + (l + m) a x, whatever the multipliers
Stationary == \A c \in Vals, a \in Vals, x \in Vals, p \in Pairs :
  LET lam == Join(s.lam, <<>>, <<>>)
      solver == NAdd(NAdd(c, NMul(a, lam[1])), NSub(p[2], p[1]))
      k == Join(Head_(lam, 2), <<p[1]>>, <<p[2]>>)
  IN NEq(solver, NAdd(NAdd(c, NMul(a, k[1])), k[3]))
=============================================================================
