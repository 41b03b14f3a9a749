-------------------------------- MODULE Ocp --------------------------------
(* Transcription of an optimal control problem by segmented Chebyshev        *)
(* collocation.  A problem P is a straight-line program over the registers   *)
(* (x, u, p, d, t) with outputs xdot, g (path constraints), lag (running     *)
(* cost) and may (terminal cost; register 0 means absent); D holds the       *)
(* dimensions nx, nu, np, ng, the order N and the number of segments S.      *)
(* Decision vector: x at all nodes, u at all nodes, p; node 1 is the end of  *)
(* the horizon and node NumNodes its start.                                  *)
(* The state of a transcription is its horizon <<t0, tf>>; every evaluation  *)
(* is a function of that state and its arguments only.                       *)
EXTENDS Jet, Spectral, QuasiNewton

NumNodes(D) == D.N * D.S + 1
NumVar(D) == (D.nx + D.nu) * NumNodes(D) + D.np
Ts(D, t0, tf) == NDiv(NSub(tf, t0), NOf(2 * D.S))
\* segment (from the end of the horizon, starting at 0) that collocates node k; a junction belongs to the earlier one in time
SegOf(D, k) == IF k = NumNodes(D) THEN D.S - 1 ELSE (k - 1) \div D.N
TimeNode(D, t0, tf, k) ==
  LET s == SegOf(D, k)  ts == Ts(D, t0, tf)
  IN NAdd(NSub(tf, NMul(NOf(2 * s + 1), ts)), NMul(ts, NCosPi(k - 1 - s * D.N, D.N)))
TimeNodes(D, t0, tf) == Eager([k \in 1..NumNodes(D) |-> TimeNode(D, t0, tf, k)])
\* quadrature weight of node k over the whole horizon, in units of half a segment
NodeWeight(D, w, k) ==
  LET inner == (k - 1) % D.N  IN
  IF k = 1 THEN w[1] ELSE IF k = NumNodes(D) THEN w[D.N + 1]
  ELSE IF inner = 0 THEN NAdd(w[1], w[D.N + 1]) ELSE w[inner + 1]

XOf(D, z, k) == SubSeq(z, (k - 1) * D.nx + 1, k * D.nx)
UOf(D, z, k) == LET o == D.nx * NumNodes(D) IN SubSeq(z, o + (k - 1) * D.nu + 1, o + k * D.nu)
POf(D, z) == SubSeq(z, NumVar(D) - D.np + 1, NumVar(D))
\* variable number c: node (0 for a parameter) and position among (x, u, p) of a node
Decode(D, c) ==
  LET n == NumNodes(D)  o == D.nx * n  q == (D.nx + D.nu) * n
  IN IF c <= o THEN <<((c - 1) \div D.nx) + 1, ((c - 1) % D.nx) + 1>>
     ELSE IF c <= q THEN <<((c - o - 1) \div D.nu) + 1, D.nx + ((c - o - 1) % D.nu) + 1>>
     ELSE <<0, D.nx + D.nu + (c - q)>>
DecodeAll(D) == Eager([c \in 1..NumVar(D) |-> Decode(D, c)])

Outs(r, idx) == [i \in 1..Len(idx) |-> r[idx[i]]]
\* jets of all outputs at all nodes; ts and weights applied
NodeJets(D, P, w, t0, tf, z, d) ==
  LET n == D.nx + D.nu + D.np  ts == Ts(D, t0, tf)
      At(k) == LET r == Run(P.prog, XOf(D, z, k) \o UOf(D, z, k) \o POf(D, z), d \o <<TimeNode(D, t0, tf, k)>>)
                   lag == IF P.lag = 0 THEN JConst(n, "0") ELSE r[P.lag]
                   may == IF P.may = 0 \/ k # 1 THEN JConst(n, "0") ELSE r[P.may]
               IN [f |-> Outs(r, P.xdot), g |-> Outs(r, P.g), mag |-> Mag(r, 1),
                   c |-> JAdd(JScale(NMul(ts, NodeWeight(D, w, k)), lag), may)]
  IN Eager([k \in 1..NumNodes(D) |-> At(k)])
\* the same without derivatives
NodeVals(D, P, w, t0, tf, z, d) ==
  LET ts == Ts(D, t0, tf)
      At(k) == LET r == Run(P.prog, <<>>, XOf(D, z, k) \o UOf(D, z, k) \o POf(D, z) \o d \o <<TimeNode(D, t0, tf, k)>>)
                   lag == IF P.lag = 0 THEN JConst(0, "0") ELSE r[P.lag]
                   may == IF P.may = 0 \/ k # 1 THEN JConst(0, "0") ELSE r[P.may]
               IN [f |-> Outs(r, P.xdot), g |-> Outs(r, P.g), mag |-> Mag(r, 1), c |-> JAdd(JScale(NMul(ts, NodeWeight(D, w, k)), lag), may)]
  IN Eager([k \in 1..NumNodes(D) |-> At(k)])
RECURSIVE MaxMag(_, _)
MaxMag(J, k) == IF k > Len(J) THEN "1" ELSE NMax(J[k].mag, MaxMag(J, k + 1))

\* values
CostVal(J) == VSum([k \in 1..Len(J) |-> J[k].c.v])
\* derivative of the interpolating polynomial at node k, component i, times half a segment
DX(D, dm, z, k, i) ==
  LET s == SegOf(D, k)  row == dm[k - s * D.N]
  IN VSum([j \in 1..(D.N + 1) |-> NMul(row[j], z[(s * D.N + j - 1) * D.nx + i])])
\* k-th node and i-th component of row r in blocks of m
Blk(r, m) == <<((r - 1) \div m) + 1, ((r - 1) % m) + 1>>
EqVal(D, dm, ts, J, z, r) == LET b == Blk(r, D.nx) IN NSub(DX(D, dm, z, b[1], b[2]), NMul(ts, J[b[1]].f[b[2]].v))
EqVals(D, dm, ts, J, z) == Eager([r \in 1..(D.nx * NumNodes(D)) |-> EqVal(D, dm, ts, J, z, r)])
IneqVals(D, J) == Eager([r \in 1..(D.ng * NumNodes(D)) |-> LET b == Blk(r, D.ng) IN J[b[1]].g[b[2]].v])

\* first derivatives
CostGrad(D, dec, J) ==
  Eager([c \in 1..NumVar(D) |-> IF dec[c][1] = 0 THEN VSum([k \in 1..Len(J) |-> J[k].c.g[dec[c][2]]]) ELSE J[dec[c][1]].c.g[dec[c][2]]])
EqJac(D, dec, dm, ts, J) ==
  LET Entry(k, i, kc, loc) ==
        LET dyn == IF kc \in {k, 0} THEN NMul(NNeg(ts), J[k].f[i].g[loc]) ELSE "0"
            s == SegOf(D, k)
            dif == IF kc # 0 /\ loc = i /\ kc - s * D.N \in 1..(D.N + 1) THEN dm[k - s * D.N][kc - s * D.N] ELSE "0"
        IN NAdd(dyn, dif)
  IN Eager([r \in 1..(D.nx * NumNodes(D)) |-> LET b == Blk(r, D.nx) IN [c \in 1..NumVar(D) |-> Entry(b[1], b[2], dec[c][1], dec[c][2])]])
IneqJac(D, dec, J) ==
  Eager([r \in 1..(D.ng * NumNodes(D)) |-> LET b == Blk(r, D.ng) IN [c \in 1..NumVar(D) |-> IF dec[c][1] \in {b[1], 0} THEN J[b[1]].g[b[2]].g[dec[c][2]] ELSE "0"]])

\* second derivatives: every node contributes a small matrix over its own (x, u, p)
Spread(D, dec, blocks) ==
  LET total == Eager([a \in 1..(D.nx + D.nu + D.np) |-> IF a <= D.nx + D.nu THEN <<>>
                     ELSE [b \in 1..(D.nx + D.nu + D.np) |-> IF b <= D.nx + D.nu THEN "0" ELSE VSum([k \in 1..Len(blocks) |-> blocks[k][a][b]])]])
      Entry(a, b) == IF a[1] = 0 /\ b[1] = 0 THEN total[a[2]][b[2]]
                     ELSE IF a[1] = 0 THEN blocks[b[1]][a[2]][b[2]]
                     ELSE IF b[1] \in {a[1], 0} THEN blocks[a[1]][a[2]][b[2]] ELSE "0"
  IN Eager([r \in 1..NumVar(D) |-> [c \in 1..NumVar(D) |-> Entry(dec[r], dec[c])]])
CostHess(D, dec, J) == Spread(D, dec, [k \in 1..Len(J) |-> J[k].c.h])
RECURSIVE AddAll(_, _, _)
AddAll(js, lam, acc) == IF js = <<>> THEN acc ELSE AddAll(Tail(js), Tail(lam), MAdd(acc, MScale(Head(lam), Head(js).h)))
\* multipliers: equalities, inequalities, variable bounds; the cost scale applies to the cost only
LagHess(D, dec, ts, J, lam, scale) ==
  LET ne == D.nx * NumNodes(D)
      Block(k) == LET mu == SubSeq(lam, (k - 1) * D.nx + 1, k * D.nx)  nu == SubSeq(lam, ne + (k - 1) * D.ng + 1, ne + k * D.ng)
                  IN AddAll(J[k].g, nu, AddAll(J[k].f, VScale(NNeg(ts), mu), MScale(scale, J[k].c.h)))
  IN Spread(D, dec, Eager([k \in 1..Len(J) |-> Block(k)]))
LagGrad(D, grad, je, ji, lam) ==
  LET ne == Len(je)  nc == Len(je) + Len(ji)  n == NumVar(D)
  IN VAdd(grad, VAdd(SubSeq(lam, nc + 1, nc + n), VAdd(MTVec(n, je, SubSeq(lam, 1, ne)), MTVec(n, ji, SubSeq(lam, ne + 1, nc)))))
LagVal(D, cost, ev, iv, lam, z) ==
  LET ne == Len(ev)  nc == ne + Len(iv)
  IN NAdd(NAdd(cost, VDot(SubSeq(lam, nc + 1, nc + Len(z)), z)), NAdd(VDot(ev, SubSeq(lam, 1, ne)), VDot(iv, SubSeq(lam, ne + 1, nc))))

\* block quasi-Newton update (v = H s, r the damped gradient change): entries of the block pattern receive the damped rank-two update, the others stay
InPattern(a, b) == a[1] = b[1] \/ a[1] = 0 \/ b[1] = 0
BlockBfgs(dec, H, s, r, v) ==
  LET sv == VDot(s, v)  sr == VDot(s, r)  n == Len(H)
  IN Eager([a \in 1..n |-> [b \in 1..n |-> IF InPattern(dec[a], dec[b])
       THEN NAdd(NSub(H[a][b], NDiv(NMul(v[a], v[b]), sv)), NDiv(NMul(r[a], r[b]), sr)) ELSE H[a][b]]])
\* H1 is the block update of H0, or H0 itself where the curvature along the step is below the machine precision
BlockUpdateOk(dec, H0, H1, s, y, ds, dy, u, eps) ==
  LET v == Eager(MVec(H0, s))
      r == Eager(Damped(s, y, v))
      e == UpdErr(H0, s, r, v, y, ds, dy, u)
      same == MClose(H1, H0, NMul(u, MNormMax(H0)), u)
      usable == NLeq(e.mat, NMul("1e-2", NAdd("1", e.big)))
      done == MClose(H1, BlockBfgs(dec, H0, s, r, v), e.mat, u)
  IN IF NoCurvature(s, v, y, H0, ds, dy, u, eps) THEN same
     ELSE IF NLt(NAdd(e.sr, NMul("2", e.er)), eps) THEN same
     ELSE IF NLeq(NSub(e.sr, NMul("2", e.er)), eps) \/ NLeq(e.sv, NMul("2", e.ev)) THEN same \/ ~usable \/ done
     ELSE IF usable THEN done ELSE TRUE
=============================================================================
