---------------------------- MODULE QuasiNewton ----------------------------
(* Quasi-Newton updates of a symmetric matrix H by a step s and a gradient   *)
(* change y; v = H s.                                                        *)
EXTENDS Num
NSq(x) == NMul(x, x)
\* damped direction: y where s.y >= 0.2 s.Hs, otherwise moved towards Hs
Damped(s, y, v) ==
  LET sv == VDot(s, v)  sy == VDot(s, y)
  IN IF NLeq(NMul("0.2", sv), sy) THEN y
     ELSE IF NEq(sv, sy) THEN v      \* s.y = s.v < 0: no curvature, no update
     ELSE LET th == NDiv(NMul("0.8", sv), NSub(sv, sy)) IN VAdd(VScale(th, y), VScale(NSub("1", th), v))
RankTwo(H, s, r, v) ==
  LET sv == VDot(s, v)  sr == VDot(s, r)
  IN MAdd(H, MAdd(MScale(NDiv("-1", sv), VOuter(v, v)), MScale(NDiv("1", sr), VOuter(r, r))))
RankOne(H, s, w) == MAdd(H, MScale(NDiv("1", VDot(w, s)), VOuter(w, w)))
\* Forward error of an update whose operands carry errors ds, dy (absolute, every component) and u (relative).
\* The record tells how near the curvatures are to zero: sv, sr with their errors ev, er; mat bounds the error of an updated entry.
UpdErr(H, s, r, v, y, ds, dy, u) ==
  LET n == NOf(Len(s))
      sI == VNormInf(s)  vI == VNormInf(v)  rI == VNormInf(r)  yI == VNormInf(y)  hI == MNormMax(H)
      dv == NMul(n, NMul(hI, NAdd(ds, NMul(u, sI))))
      eHalf(a, da) == NMul(n, NAdd(NMul(ds, a), NAdd(NMul(sI, da), NMul(u, NMul(sI, a)))))
      ev == eHalf(vI, dv)   ey == eHalf(yI, dy)
      sv == NAbs(VDot(s, v))  sr == NAbs(VDot(s, r))
      safe(q) == IF NEq(q, "0") THEN "1e-300" ELSE q
      dth == NDiv(NMul("4", NAdd(ev, ey)), safe(sv))
      dr == NAdd(NAdd(dy, dv), NAdd(NMul(u, rI), NMul(dth, NAdd(yI, vI))))
      er == eHalf(rI, dr)
      t1 == NAdd(NDiv(NMul("2", NMul(vI, dv)), safe(sv)), NDiv(NMul(NSq(vI), ev), safe(NSq(sv))))
      t2 == NAdd(NDiv(NMul("2", NMul(rI, dr)), safe(sr)), NDiv(NMul(NSq(rI), er), safe(NSq(sr))))
      big == NAdd(hI, NAdd(NDiv(NSq(vI), safe(sv)), NDiv(NSq(rI), safe(sr))))
  IN [sv |-> sv, sr |-> VDot(s, r), ev |-> ev, er |-> er, mat |-> NMul("4", NAdd(NAdd(t1, t2), NMul(u, big))), big |-> big]
\* Certainly no curvature along the step, damped or not: the exact s.r is max(s.y, 0.2 s.v), also where the damping factor is not defined (s.y = s.v < 0).
NoCurvature(s, v, y, H, ds, dy, u, eps) ==
  LET n == NOf(Len(s))  sI == VNormInf(s)  vI == VNormInf(v)  yI == VNormInf(y)
      dv == NMul(n, NMul(MNormMax(H), NAdd(ds, NMul(u, sI))))
      err == NMul(n, NAdd(NMul(ds, NAdd(vI, yI)), NAdd(NMul(sI, NAdd(dv, dy)), NMul(u, NMul(sI, NAdd(vI, yI))))))
  IN NLt(NAdd(NMax(VDot(s, y), NMul("0.2", VDot(s, v))), NMul("4", err)), eps)
\* H1 is the damped update of H0, or H0 itself where the curvature along the step is below the machine precision
DampedUpdateOk(H0, H1, s, y, ds, dy, u, eps) ==
  LET v == Eager(MVec(H0, s))
      r == Eager(Damped(s, y, v))
      e == UpdErr(H0, s, r, v, y, ds, dy, u)
      same == MClose(H1, H0, NMul(u, MNormMax(H0)), u)
      canSkip == NLeq(NSub(e.sr, NMul("2", e.er)), eps) \/ NLeq(e.sv, NMul("2", e.ev))
      mustSkip == NLt(NAdd(e.sr, NMul("2", e.er)), eps)
      usable == NLeq(e.mat, NMul("1e-2", NAdd("1", e.big)))   \* else rounding decides the outcome
  IN IF NoCurvature(s, v, y, H0, ds, dy, u, eps) THEN same
     ELSE IF mustSkip THEN same
     ELSE IF canSkip THEN same \/ ~usable \/ MClose(H1, Eager(RankTwo(H0, s, r, v)), e.mat, u)
     ELSE IF usable THEN MClose(H1, Eager(RankTwo(H0, s, r, v)), e.mat, u) ELSE TRUE
\* Rank-one (SR1) update with its safeguard: H0 stays where |w.s| <= 1e-6 |w| |s|, w = y - H0 s; errors as above
Rank1Err(H, s, w, y, u) ==
  LET n == NOf(Len(s))  sI == VNormInf(s)  wI == VNormInf(w)  hI == MNormMax(H)
      dw == NMul(u, NAdd(NMul(n, NMul(hI, sI)), VNormInf(y)))
      ev == NMul(n, NAdd(NMul(dw, sI), NMul(u, NMul(wI, sI))))
      sv == NAbs(VDot(w, s))
      safe == IF NEq(sv, "0") THEN "1e-300" ELSE sv
      big == NAdd(hI, NDiv(NSq(wI), safe))
  IN [sv |-> sv, ev |-> ev, floor |-> NMul("1e-6", NSqrt(NMul(VDot(w, w), VDot(s, s)))), df |-> NMul("1e-6", NMul(n, NAdd(NMul(dw, sI), NMul(u, NMul(wI, sI))))), big |-> big,
      mat |-> NMul("4", NAdd(NAdd(NDiv(NMul("2", NMul(wI, dw)), safe), NDiv(NMul(NSq(wI), ev), NSq(safe))), NMul(u, big)))]
Sr1UpdateOk(H0, H1, s, y, u) ==
  LET w == Eager(VSub(y, MVec(H0, s)))
      e == Rank1Err(H0, s, w, y, u)
      slack == NMul("2", NAdd(e.ev, e.df))
      same == MClose(H1, H0, NMul(u, MNormMax(H0)), u)
      mustSkip == NLt(NAdd(e.sv, slack), e.floor) \/ (\A i \in 1..Len(w) : NEq(w[i], "0")) \/ (\A i \in 1..Len(s) : NEq(s[i], "0"))
      canSkip == NLeq(NSub(e.sv, slack), e.floor)
      usable == NLeq(e.mat, NMul("1e-2", NAdd("1", e.big)))
  IN IF mustSkip THEN same
     ELSE IF canSkip THEN same \/ ~usable \/ MClose(H1, Eager(RankOne(H0, s, w)), e.mat, u)
     ELSE IF usable THEN MClose(H1, Eager(RankOne(H0, s, w)), e.mat, u) ELSE TRUE
=============================================================================
