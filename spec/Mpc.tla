-------------------------------- MODULE Mpc --------------------------------
(* The MPC interface.  The state of a controller is the problem in force:    *)
(* horizon t0, tf, bounds lx, ux of the decision vector and lg, ug of the    *)
(* path constraints, guess (or last solution) z with multipliers lam, and    *)
(* the static parameters d.  Setters change exactly the entries they name:   *)
(*   x0  the state at the start of the horizon      xf  at its end           *)
(*   xb  the states everywhere but at the start     xt  the whole trajectory *)
(*   ub, ut  controls everywhere                    pp  parameters           *)
(*   gb, gt  path constraints everywhere            dd, ll  all of d, lam    *)
(* t-regions receive a trajectory in the order of the decision vector, the   *)
(* others one value per component.  Solving changes z and lam only.          *)
EXTENDS Ocp

NumIneq(D) == D.ng * NumNodes(D)
Size(D, f) == CASE f \in {"lx", "ux", "z"} -> NumVar(D) [] f \in {"lg", "ug"} -> NumIneq(D) [] f = "d" -> D.nd
                [] f = "lam" -> NumVar(D) + NumIneq(D) + D.nx * NumNodes(D)
\* what an entry of the decision vector stands for
IsX(D, e) == e[1] # 0 /\ e[2] <= D.nx
IsU(D, e) == e[1] # 0 /\ e[2] > D.nx
Covers(D, r, e) == CASE r = "x0" -> IsX(D, e) /\ e[1] = NumNodes(D) [] r = "xf" -> IsX(D, e) /\ e[1] = 1
                     [] r = "xb" -> IsX(D, e) /\ e[1] # NumNodes(D) [] r = "xt" -> IsX(D, e)
                     [] r \in {"ub", "ut"} -> IsU(D, e) [] r = "pp" -> e[1] = 0 [] OTHER -> TRUE
Given(D, r, e, c, a) == CASE r \in {"x0", "xf", "xb"} -> a[e[2]] [] r = "ub" -> a[e[2] - D.nx]
                          [] r = "xt" -> a[(e[1] - 1) * D.nx + e[2]] [] r = "ut" -> a[(e[1] - 1) * D.nu + e[2] - D.nx] [] r = "pp" -> a[e[2] - D.nx - D.nu]
                          [] r = "gb" -> a[((c - 1) % D.ng) + 1] [] OTHER -> a[c]
\* setter: what it writes, as <<field, region, argument>>
Writes(op) ==
  CASE op = "x0" -> <<<<"lx", "x0", 1>>, <<"ux", "x0", 1>>>> [] op = "x0b" -> <<<<"lx", "x0", 1>>, <<"ux", "x0", 2>>>>
    [] op = "xlb" -> <<<<"lx", "xb", 1>>>> [] op = "xub" -> <<<<"ux", "xb", 1>>>> [] op = "xb" -> <<<<"lx", "xb", 1>>, <<"ux", "xb", 2>>>>
    [] op = "xtb" -> <<<<"lx", "xt", 1>>, <<"ux", "xt", 2>>>>
    [] op = "xflb" -> <<<<"lx", "xf", 1>>>> [] op = "xfub" -> <<<<"ux", "xf", 1>>>> [] op = "xfb" -> <<<<"lx", "xf", 1>>, <<"ux", "xf", 2>>>>
    [] op = "ulb" -> <<<<"lx", "ub", 1>>>> [] op = "uub" -> <<<<"ux", "ub", 1>>>> [] op = "ub" -> <<<<"lx", "ub", 1>>, <<"ux", "ub", 2>>>>
    [] op = "utb" -> <<<<"lx", "ut", 1>>, <<"ux", "ut", 2>>>>
    [] op = "gb" -> <<<<"lg", "gb", 1>>, <<"ug", "gb", 2>>>> [] op = "gtb" -> <<<<"lg", "gt", 1>>, <<"ug", "gt", 2>>>>
    [] op = "pb" -> <<<<"lx", "pp", 1>>, <<"ux", "pp", 2>>>>
    [] op = "d" -> <<<<"d", "dd", 1>>>> [] op = "xg" -> <<<<"z", "xt", 1>>>> [] op = "ug" -> <<<<"z", "ut", 1>>>> [] op = "pg" -> <<<<"z", "pp", 1>>>> [] op = "lg" -> <<<<"lam", "ll", 1>>>>
Setters == {"x0", "x0b", "xlb", "xub", "xb", "xtb", "xflb", "xfub", "xfb", "ulb", "uub", "ub", "utb", "gb", "gtb", "pb", "d", "xg", "ug", "pg", "lg"}
\* length of the arguments
ArgLen(D, r) == CASE r \in {"x0", "xf", "xb"} -> D.nx [] r = "ub" -> D.nu [] r = "xt" -> D.nx * NumNodes(D) [] r = "ut" -> D.nu * NumNodes(D)
                  [] r = "pp" -> D.np [] r = "gb" -> D.ng [] r = "gt" -> NumIneq(D) [] r = "dd" -> D.nd [] r = "ll" -> Size(D, "lam")
Offers(D, op) == /\ op \in {"gb", "gtb"} => D.ng > 0
                 /\ op \in {"pb", "pg"} => D.np > 0
                 /\ op = "d" => D.nd > 0
\* the decision vector is decoded, the other vectors are covered as a whole
EntryOf(dec, f, c) == IF f \in {"lx", "ux", "z"} THEN dec[c] ELSE <<0, 0>>
Write(D, dec, w, args, f, v) ==
  IF w[1] # f THEN v
  ELSE Eager([c \in 1..Size(D, f) |-> LET e == EntryOf(dec, f, c) IN IF Covers(D, w[2], e) THEN Given(D, w[2], e, c, args[w[3]]) ELSE v[c]])
RECURSIVE WriteAll(_, _, _, _, _, _)
WriteAll(D, dec, ws, args, f, v) == IF ws = <<>> THEN v ELSE WriteAll(D, dec, Tail(ws), args, f, Write(D, dec, Head(ws), args, f, v))
Set(D, dec, m, op, args) == LET W(f) == WriteAll(D, dec, Writes(op), args, f, m[f])
  IN [t0 |-> m.t0, tf |-> m.tf, lx |-> W("lx"), ux |-> W("ux"), lg |-> W("lg"), ug |-> W("ug"), z |-> W("z"), lam |-> W("lam"), d |-> W("d")]
SetLimits(m, a, b) == [m EXCEPT !.t0 = a, !.tf = b]
Solved(m, z, lam) == [m EXCEPT !.z = z, !.lam = lam]

\* Accessors.  Step k = 0, ..., N S in time: the first is the start of the horizon.
XAt(D, m, k) == XOf(D, m.z, NumNodes(D) - k)
UAt(D, m, k) == UOf(D, m.z, NumNodes(D) - k)
Params(D, m) == POf(D, m.z)
XTraj(D, m) == SubSeq(m.z, 1, D.nx * NumNodes(D))
UTraj(D, m) == SubSeq(m.z, D.nx * NumNodes(D) + 1, (D.nx + D.nu) * NumNodes(D))
TimeOf(D, m, k) == TimeNode(D, m.t0, m.tf, NumNodes(D) - k)
\* segment (in time, from 0) of a time; either one at a junction
RECURSIVE SegAt(_, _, _, _)
SegAt(D, m, time, s) == IF s = 0 THEN 0 ELSE IF NLeq(TimeOf(D, m, s * D.N), time) THEN s ELSE SegAt(D, m, time, s - 1)
\* Lagrange weights of the nodes of segment s at a time
RECURSIVE LProd(_, _, _, _)
LProd(ts, time, j, i) == IF i > Len(ts) THEN "1" ELSE IF i = j THEN LProd(ts, time, j, i + 1)
                         ELSE NMul(NDiv(NSub(time, ts[i]), NSub(ts[j], ts[i])), LProd(ts, time, j, i + 1))
SegTimes(D, m, s) == Eager([i \in 1..(D.N + 1) |-> TimeOf(D, m, s * D.N + i - 1)])
LWeights(D, m, s, time) == LET ts == SegTimes(D, m, s) IN Eager([j \in 1..(D.N + 1) |-> LProd(ts, time, j, 1)])
\* value at a time of the quantity whose step values are v[k + 1], evaluated on segment s
OnSegment(D, m, v, s, time) == LET w == LWeights(D, m, s, time) IN
  Eager([i \in 1..Len(v[1]) |-> VSum([j \in 1..(D.N + 1) |-> NMul(w[j], v[s * D.N + j][i])])])
AtTime(D, m, v, time) == OnSegment(D, m, v, SegAt(D, m, time, D.S - 1), time)
XSteps(D, m) == Eager([k \in 1..NumNodes(D) |-> XAt(D, m, k - 1)])
USteps(D, m) == Eager([k \in 1..NumNodes(D) |-> UAt(D, m, k - 1)])

\* An admissible trajectory: bounds and collocated dynamics hold within a tolerance
Within(v, lo, up, tol) == \A i \in 1..Len(v) : NLeq(NSub(lo[i], tol), v[i]) /\ NLeq(v[i], NAdd(up[i], tol))
Small(v, tol) == \A i \in 1..Len(v) : NLeq(NAbs(v[i]), tol)
=============================================================================
