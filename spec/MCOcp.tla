------------------------------- MODULE MCOcp -------------------------------
(* Consistency of the transcription defined by Ocp, over histories of        *)
(* horizon changes and moves of the decision vector: gradients, Jacobians    *)
(* and Hessians are the derivatives of the values (central differences with  *)
(* step 1e-12 at 40 digits), Hessians are symmetric and live on the block    *)
(* pattern, node times run from the end to the start of the horizon, the     *)
(* running cost of a polynomial of degree <= N integrates exactly and a      *)
(* polynomial trajectory satisfies its collocation equations, for every      *)
(* horizon.                                                                  *)
EXTENDS Ocp, TLC
CONSTANTS Dims, Horizons, MaxMoves
DimsQuick == <<[nx |-> 1, nu |-> 2, np |-> 1, nd |-> 1, ng |-> 1, N |-> 2, S |-> 2]>>
DimsDeep == <<[nx |-> 1, nu |-> 2, np |-> 1, nd |-> 1, ng |-> 1, N |-> 2, S |-> 2], [nx |-> 2, nu |-> 1, np |-> 2, nd |-> 1, ng |-> 2, N |-> 3, S |-> 1],
              [nx |-> 1, nu |-> 1, np |-> 0, nd |-> 1, ng |-> 1, N |-> 1, S |-> 3], [nx |-> 2, nu |-> 1, np |-> 1, nd |-> 1, ng |-> 1, N |-> 2, S |-> 2]>>
HorQuick == <<<<"0", "1">>, <<"-1.5", "0.75">>>>
HorDeep == <<<<"0", "1">>, <<"-1.5", "0.75">>, <<"2", "7">>>>
VARIABLES k, h, z, moves
vars == <<k, h, z, moves>>
D == Dims[k]
\* a program that mixes states, controls, parameters, static parameters and time
In(d) == d.nx + d.nu + d.np + d.nd + 1
Prog(d) == LET n == In(d)  I(o, a, b) == [o |-> o, a |-> a, b |-> b, c |-> "1.5"] IN
  <<I("mix", 1, d.nx + 1), I("mul", n, 1), I("acc", n + 1, n + 2), I("sin", d.nx + d.nu + d.np, 1), I("mul", n + 3, n + 4), I("hyp", n + 3, n - 1), I("mul", n + 5, d.nx + d.nu)>>
P == LET n == In(D) IN [prog |-> Prog(D), xdot |-> [i \in 1..D.nx |-> n + 4 + i], g |-> [i \in 1..D.ng |-> n + 3 + i], lag |-> n + 7, may |-> n + 3]
Stat == <<"0.3">>
Lam == [i \in 1..((D.nx + D.ng) * NumNodes(D) + NumVar(D)) |-> NDiv(NOf(((i * 7) % 5) - 2), "2")]
Scale == "0.5"
\* tables per order, computed once
Orders == {Dims[i].N : i \in 1..Len(Dims)}
Table == [n \in Orders |-> [dm |-> DMat(Cgl(n)), w |-> IntWeights(Cgl(n))]]
T0 == Horizons[h][1]
Tf == Horizons[h][2]
dm == Table[D.N].dm
J(x) == NodeJets(D, P, Table[D.N].w, T0, Tf, x, Stat)
ts == Ts(D, T0, Tf)

Values == <<"0.4", "-0.7", "1">>
Init == k \in 1..Len(Dims) /\ h = 1 /\ z = [i \in 1..NumVar(D) |-> NDiv(NOf(((i * 5) % 7) - 3), "4")] /\ moves = 0
Next == /\ moves < MaxMoves /\ moves' = moves + 1 /\ UNCHANGED k
        /\ \/ h' \in (1..Len(Horizons)) \ {h} /\ UNCHANGED z
           \/ \E c \in {1, D.nx * NumNodes(D) + 1, NumVar(D)} : \E v \in 1..Len(Values) : z' = [z EXCEPT ![c] = Values[v]] /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
H == "1e-12"
Shift(x, c, d) == [x EXCEPT ![c] = NAdd(x[c], d)]
All(x) == LET dec == DecodeAll(D)  j == J(x)  je == EqJac(D, dec, dm, ts, j)  ji == IneqJac(D, dec, j)  g == CostGrad(D, dec, j)
              sg == Eager(VScale(Scale, g))
          IN [f |-> CostVal(j), ev |-> EqVals(D, dm, ts, j, x), iv |-> IneqVals(D, j), g |-> g, je |-> je, ji |-> ji,
              h |-> LagHess(D, dec, ts, j, Lam, Scale), ch |-> CostHess(D, dec, j), lg |-> LagGrad(D, sg, je, ji, Lam), mag |-> MaxMag(j, 1)]
Derivatives ==
  LET dec == DecodeAll(D)  a == All(z)  m == NMul(a.mag, NOf(10 * NumNodes(D)))  tol == NMul("1e-11", NMul(m, NMul(m, m)))
      Half(v) == VScale(NDiv("0.5", H), v)
      Col(mm, c) == [i \in 1..Len(mm) |-> mm[i][c]] IN
  \A c \in 1..NumVar(D) :
    LET u == All(Shift(z, c, H))  l == All(Shift(z, c, NNeg(H))) IN
    /\ NClose(a.g[c], NMul(NDiv("0.5", H), NSub(u.f, l.f)), tol, "0")
    /\ VClose(Col(a.je, c), Half(VSub(u.ev, l.ev)), tol, "0")
    /\ VClose(Col(a.ji, c), Half(VSub(u.iv, l.iv)), tol, "0")
    /\ VClose(a.h[c], Half(VSub(u.lg, l.lg)), tol, "0")
    /\ VClose(a.ch[c], Half(VSub(u.g, l.g)), tol, "0")
    /\ \A b \in 1..NumVar(D) : /\ NClose(a.h[b][c], a.h[c][b], "1e-25", "1e-25")
                               /\ InPattern(dec[b], dec[c]) \/ (NEq(a.h[b][c], "0") /\ NEq(a.ch[b][c], "0"))
Times == LET tn == TimeNodes(D, T0, Tf)  n == NumNodes(D) IN
  /\ NClose(tn[1], Tf, "1e-30", "0") /\ NClose(tn[n], T0, "1e-30", "0")
  /\ \A i \in 1..(n - 1) : NLt(tn[i + 1], tn[i])
  /\ \A s \in 1..D.S : NClose(tn[s * D.N + 1], NSub(Tf, NDiv(NMul(NOf(s), NSub(Tf, T0)), NOf(D.S))), "1e-30", "0")
\* x' = u with x a polynomial of degree N in time: residuals vanish; the running cost u integrates to x(tf) - x(t0)
Exactness ==
  LET E == [nx |-> 1, nu |-> 1, np |-> 0, nd |-> 1, ng |-> 0, N |-> D.N, S |-> D.S]
      Q == [prog |-> <<>>, xdot |-> <<2>>, g |-> <<>>, lag |-> 2, may |-> 0]
      p == Eager([i \in 1..(D.N + 1) |-> NOf(((i * 3 + h) % 5) - 1)])  dp == Eager(PDeriv(p))
      tn == TimeNodes(E, T0, Tf)
      x == Eager([i \in 1..Len(tn) |-> PEval(p, tn[i])] \o [i \in 1..Len(tn) |-> PEval(dp, tn[i])])
      j == NodeJets(E, Q, Table[D.N].w, T0, Tf, x, Stat)
  IN /\ VClose(EqVals(E, dm, Ts(E, T0, Tf), j, x), VConst(Len(tn), "0"), "1e-20", "0")
     /\ NClose(CostVal(j), NSub(PEval(p, Tf), PEval(p, T0)), "1e-20", "0")
=============================================================================
