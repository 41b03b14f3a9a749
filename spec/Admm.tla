------------------------------- MODULE Admm -------------------------------
(* The two operator-splitting QP solvers as one state machine.              *)
(*                                                                           *)
(*   minimise 1/2 x'Hx + h'x   subject to   al <= A x <= au,  xl <= x <= xu  *)
(*                                                                           *)
(* kind = "admm":  the box is stacked under A (z has m+n entries, q unused). *)
(* kind = "box":   the box keeps its own copy q of x (z has m entries).      *)
(*                                                                           *)
(* One action per phase of an iteration: Iterate (linear system, relaxation, *)
(* projection, multipliers), Check (scheduled termination test), Adapt       *)
(* (scheduled penalty adaptation), Exhaust (iteration limit).  A problem is  *)
(* a record prob (see AdmmTrace / MCAdmm); all numbers are numerals of Num.  *)
EXTENDS Num, FiniteSets, TLC

VARIABLES prob,       \* the problem and its settings; constant during a solve
          pc,         \* "iterate" | "check" | "adapt" | "done"
          k,          \* iterations completed
          x, z, q, y, \* iterates: primal, constraint copy, box copy, multipliers (m then n)
          rho,        \* base penalty
          rhoK,       \* base penalty inside the factorised linear system
          resP, resD, \* residuals of the last evaluation
          resAt,      \* iteration at which they were evaluated (0: never)
          est,        \* last penalty estimate
          nupd,       \* penalty (re)computations in this solve
          status      \* "UNSOLVED" | "SOLVED" | "MAX_ITER"

vars == <<prob, pc, k, x, z, q, y, rho, rhoK, resP, resD, resAt, est, nupd, status>>

RhoMin == "1e-6"
RhoMax == "1e6"
EqFactor == "1000"
LooseThresh == "1e10"
EqTol == "1e-4"

n == prob.n
m == prob.m
S == prob.set
Head_(v, i) == SubSeq(v, 1, i)
Tail_(v, i) == SubSeq(v, i + 1, Len(v))

-----------------------------------------------------------------------------
(* Constraint classes and penalty weights *)
Class(l, u) == IF NLt(l, NNeg(LooseThresh)) /\ NLt(LooseThresh, u) THEN "loose"
               ELSE IF NLt(NSub(u, l), EqTol) THEN "eq" ELSE "ineq"
Weight(c, r) == CASE c = "loose" -> RhoMin [] c = "eq" -> NMul(EqFactor, r) [] OTHER -> r
RowWeights(r) == Eager([i \in 1..m |-> Weight(Class(prob.al[i], prob.au[i]), r)])
BoxWeights(r) == Eager([i \in 1..n |-> Weight(Class(prob.xl[i], prob.xu[i]), r)])
Inv(v) == VDiv(VConst(Len(v), "1"), v)

Lower == prob.al \o prob.xl
Upper == prob.au \o prob.xu
Unit(i) == [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]
Ae == Eager(prob.A \o [i \in 1..n |-> Unit(i)])
Proj(v, lo, hi) == VMin(VMax(v, lo), hi)

-----------------------------------------------------------------------------
(* The linear system that every iteration solves, for base penalty r *)
KKT(r) ==
  LET rw == RowWeights(r)  bw == BoxWeights(r)
      C  == IF prob.kind = "admm" THEN Ae ELSE prob.A
      w  == IF prob.kind = "admm" THEN rw \o bw ELSE rw
      p  == Len(C)
      Dg(i) == IF prob.kind = "admm" THEN S.sigma ELSE NAdd(S.sigma, bw[i])
  IN Eager([i \in 1..(n + p) |-> [j \in 1..(n + p) |->
        IF i <= n THEN IF j <= n THEN (IF i = j THEN NAdd(prob.H[i][j], Dg(i)) ELSE prob.H[i][j])
                       ELSE C[j - n][i]
        ELSE IF j <= n THEN C[i - n][j]
             ELSE IF i = j THEN NNeg(NDiv("1", w[i - n])) ELSE "0"]])

-----------------------------------------------------------------------------
(* One splitting step from (x,z,q,y) with penalty r *)
Relax(new, old) == VAdd(VScale(S.alpha, new), VScale(NSub("1", S.alpha), old))

StackedStep(r) ==
  LET w == RowWeights(r) \o BoxWeights(r)
      iw == Inv(w)
      rhs == VSub(VScale(S.sigma, x), prob.h) \o VSub(z, VMul(iw, y))
      sol == MSolve(KKT(r), rhs)
      xt == Head_(sol, n)
      zt == VAdd(z, VMul(iw, VSub(Tail_(sol, n), y)))
      zr == Relax(zt, z)
      z1 == Proj(VAdd(zr, VMul(iw, y)), Lower, Upper)
  IN [x |-> Relax(xt, x), z |-> z1, q |-> <<>>, y |-> VAdd(y, VMul(w, VSub(zr, z1)))]

SplitStep(r) ==
  LET rw == RowWeights(r)  bw == BoxWeights(r)
      irw == Inv(rw)  ibw == Inv(bw)
      ya == Head_(y, m)  yb == Tail_(y, m)
      rhs == VSub(VAdd(VSub(VScale(S.sigma, x), prob.h), VMul(bw, q)), yb) \o VSub(z, VMul(irw, ya))
      sol == MSolve(KKT(r), rhs)
      xt == Head_(sol, n)
      zt == VAdd(z, VMul(irw, VSub(Tail_(sol, n), ya)))
      zr == Relax(zt, z)
      z1 == Proj(VAdd(zr, VMul(irw, ya)), prob.al, prob.au)
      qr == Relax(xt, q)
      q1 == Proj(VAdd(qr, VMul(ibw, yb)), prob.xl, prob.xu)
  IN [x |-> Relax(xt, x), z |-> z1, q |-> q1,
      y |-> VAdd(ya, VMul(rw, VSub(zr, z1))) \o VAdd(yb, VMul(bw, VSub(qr, q1)))]

Step(r) == IF prob.kind = "admm" THEN StackedStep(r) ELSE SplitStep(r)

-----------------------------------------------------------------------------
(* Residuals and tolerances of a point *)
Zc == Head_(z, m)                                    \* copy of A x
Zb == IF prob.kind = "admm" THEN Tail_(z, m) ELSE q  \* copy of x
PrimRow(xx) == VNormInf(VSub(MVec(prob.A, xx), Zc))
PrimBox(xx) == VNormInf(VSub(xx, Zb))
ResPrim(xx) == IF prob.kind = "admm" THEN NMax(PrimRow(xx), PrimBox(xx)) ELSE NAdd(PrimRow(xx), PrimBox(xx))
GradLag(xx, yy) == VAdd(VAdd(VAdd(MVec(prob.H, xx), prob.h), MTVec(n, prob.A, Head_(yy, m))), Tail_(yy, m))
ResDual(xx, yy) == VNormInf(GradLag(xx, yy))
ScalePrim(xx) == NMax(NMax(VNormInf(MVec(prob.A, xx)), VNormInf(xx)), VNormInf(z))
ScaleDual(xx, yy) == NMax(NMax(VNormInf(MVec(prob.H, xx)), VNormInf(MTVec(n, prob.A, Head_(yy, m)))),
                          NMax(VNormInf(prob.h), VNormInf(Tail_(yy, m))))
EpsPrim(xx) == NAdd(S.eps_abs, NMul(S.eps_rel, ScalePrim(xx)))
EpsDual(xx, yy) == NAdd(S.eps_abs, NMul(S.eps_rel, ScaleDual(xx, yy)))

\* prob.slack: relative and absolute slack of the comparisons that select a branch (<<"0","0">>: the pure design;
\* trace checking admits either branch within the rounding errors of the implementation)
Up(e) == NAdd(NMul(e, NAdd("1", prob.slack[1])), prob.slack[2])
Dn(e) == NSub(NMul(e, NSub("1", prob.slack[1])), prob.slack[2])
MayPass(rp, rd) == NLeq(rp, Up(EpsPrim(x))) /\ NLeq(rd, Up(EpsDual(x, y)))
MustPass(rp, rd) == NLeq(rp, Dn(EpsPrim(x))) /\ NLeq(rd, Dn(EpsDual(x, y)))

RhoEstimate(rp, rd) ==
  LET a == NDiv(rp, NAdd(ScalePrim(x), prob.regul))
      b == NDiv(rd, NAdd(ScaleDual(x, y), prob.regul))
  IN NMul(rho, NSqrt(NDiv(a, NAdd(b, prob.regul))))
Clip(r) == NMax(RhoMin, NMin(r, RhoMax))
MayChange(e) == NLt(e, Up(NDiv(rho, S.adtol))) \/ NLt(Dn(NMul(rho, S.adtol)), e)
MayKeep(e) == NLeq(Dn(NDiv(rho, S.adtol)), e) /\ NLeq(e, Up(NMul(rho, S.adtol)))

CheckDue(i) == S.check # 0 /\ i % S.check = 0
AdaptDue(i) == S.adaptive /\ S.interval # 0 /\ i % S.interval = 0

-----------------------------------------------------------------------------
(* A solve starts from the guess (zero for a cold start) *)
StartWith(p) ==
  /\ prob = p
  /\ pc = "iterate" /\ k = 0
  /\ x = p.x0 /\ y = p.y0
  /\ z = (IF p.kind = "admm" THEN MVec(p.A, p.x0) \o p.x0 ELSE MVec(p.A, p.x0))
  /\ q = (IF p.kind = "admm" THEN <<>> ELSE p.x0)
  /\ rho = p.set.rho /\ rhoK = p.set.rho
  /\ resP = "1" /\ resD = "1" /\ resAt = 0 /\ est = "0" /\ nupd = 1
  /\ status = "UNSOLVED"

Iterate ==
  /\ pc = "iterate" /\ k < S.max_iter
  /\ LET s == Step(rhoK) IN x' = s.x /\ z' = s.z /\ q' = s.q /\ y' = s.y
  /\ k' = k + 1
  /\ pc' = "check"
  /\ UNCHANGED <<prob, rho, rhoK, resP, resD, resAt, est, nupd, status>>

SkipCheck ==
  /\ pc = "check" /\ ~CheckDue(k)
  /\ pc' = "adapt"
  /\ UNCHANGED <<prob, k, x, z, q, y, rho, rhoK, resP, resD, resAt, est, nupd, status>>

Pass(rp, rd) ==
  /\ pc = "check" /\ CheckDue(k)
  /\ MayPass(rp, rd)
  /\ resP' = rp /\ resD' = rd /\ resAt' = k
  /\ status' = "SOLVED" /\ pc' = "done"
  /\ UNCHANGED <<prob, k, x, z, q, y, rho, rhoK, est, nupd>>

Fail(rp, rd) ==
  /\ pc = "check" /\ CheckDue(k)
  /\ ~MustPass(rp, rd)
  /\ resP' = rp /\ resD' = rd /\ resAt' = k
  /\ pc' = "adapt"
  /\ UNCHANGED <<prob, k, x, z, q, y, rho, rhoK, est, nupd, status>>

SkipAdapt ==
  /\ pc = "adapt" /\ ~AdaptDue(k)
  /\ pc' = "iterate"
  /\ UNCHANGED <<prob, k, x, z, q, y, rho, rhoK, resP, resD, resAt, est, nupd, status>>

\* e is the (clipped) estimate
KeepRho(rp, rd, e) ==
  /\ pc = "adapt" /\ AdaptDue(k)
  /\ MayKeep(e)
  /\ resP' = rp /\ resD' = rd /\ resAt' = k /\ est' = e
  /\ pc' = "iterate"
  /\ UNCHANGED <<prob, k, x, z, q, y, rho, rhoK, nupd, status>>

ChangeRho(rp, rd, e) ==
  /\ pc = "adapt" /\ AdaptDue(k)
  /\ MayChange(e)
  /\ resP' = rp /\ resD' = rd /\ resAt' = k /\ est' = e
  /\ rho' = e /\ rhoK' = e          \* the linear system is refactorised at once
  /\ nupd' = nupd + 1
  /\ pc' = "iterate"
  /\ UNCHANGED <<prob, k, x, z, q, y, status>>

Exhaust ==
  /\ pc = "iterate" /\ k = S.max_iter
  /\ status' = "MAX_ITER" /\ pc' = "done"
  /\ UNCHANGED <<prob, k, x, z, q, y, rho, rhoK, resP, resD, resAt, est, nupd>>

Check == LET rp == ResPrim(x)  rd == ResDual(x, y) IN SkipCheck \/ Pass(rp, rd) \/ Fail(rp, rd)
Adapt == LET rp == ResPrim(x)  rd == ResDual(x, y)  e == Clip(RhoEstimate(rp, rd))
         IN SkipAdapt \/ KeepRho(rp, rd, e) \/ ChangeRho(rp, rd, e)

Next == Iterate \/ Check \/ Adapt \/ Exhaust

-----------------------------------------------------------------------------
(* Properties of the design *)

\* tolerance for "zero up to rounding of the 40-digit arithmetic"
Tiny == "1e-25"
InBox(v, lo, hi) == \A i \in 1..Len(v) : NLeq(lo[i], v[i]) /\ NLeq(v[i], hi[i])

\* the constraint copies always lie in their sets
CopiesFeasible == k > 0 => InBox(Zc, prob.al, prob.au) /\ InBox(Zb, prob.xl, prob.xu)

\* the multipliers always lie in the normal cone of the sets at the copies
NormalCone(yi, zi, lo, hi) ==
  LET t == NMul(Tiny, NAdd("1", NAbs(yi))) IN
  /\ NLt(t, yi) => NEq(zi, hi)
  /\ NLt(yi, NNeg(t)) => NEq(zi, lo)
Complementary == k > 0 =>
  /\ \A i \in 1..m : NormalCone(y[i], Zc[i], prob.al[i], prob.au[i])
  /\ \A i \in 1..n : NormalCone(y[m + i], Zb[i], prob.xl[i], prob.xu[i])

\* the KKT certificate of a point (xx, yy), with primal/dual tolerances ep, ed and sign tolerance yt
Certificate(xx, yy, ep, ed, yt) ==
  LET ax == MVec(prob.A, xx)
      row(i) == NLeq(NSub(prob.al[i], ax[i]), ep) /\ NLeq(NSub(ax[i], prob.au[i]), ep)
      box(i) == NLeq(NSub(prob.xl[i], xx[i]), ep) /\ NLeq(NSub(xx[i], prob.xu[i]), ep)
      comp(yi, v, lo, hi) == /\ NLt(yt, yi) => NLeq(NAbs(NSub(v, hi)), ep)
                             /\ NLt(yi, NNeg(yt)) => NLeq(NAbs(NSub(v, lo)), ep)
  IN /\ VFin(xx) /\ VFin(yy)
     /\ \A i \in 1..m : row(i) /\ comp(yy[i], ax[i], prob.al[i], prob.au[i])
     /\ \A i \in 1..n : box(i) /\ comp(yy[m + i], xx[i], prob.xl[i], prob.xu[i])
     /\ NLeq(VNormInf(GradLag(xx, yy)), ed)

SolvedCertificate == status = "SOLVED" =>
  Certificate(x, y, NMul("1.000001", EpsPrim(x)), NMul("1.000001", EpsDual(x, y)), "1e-20")

\* success only through a scheduled test whose residuals describe the returned point
SolvedHonest == status = "SOLVED" => CheckDue(k) /\ resAt = k /\ resP = ResPrim(x) /\ resD = ResDual(x, y)
LimitHonest == status = "MAX_ITER" => k = S.max_iter
Bounded == k <= S.max_iter
\* the linear system in use always belongs to the current penalty
Fresh == rhoK = rho
RhoInRange == nupd > 1 => NLeq(RhoMin, rho) /\ NLeq(rho, RhoMax)
\* the penalty only moves at scheduled adaptations, out of the tolerance band
RhoMoves == [][rho' # rho => /\ pc = "adapt" /\ AdaptDue(k)
                             /\ ~(NLt(NDiv(rho, S.adtol), rho') /\ NLt(rho', NMul(rho, S.adtol)))]_vars
Terminates == <>(pc = "done")
=============================================================================
