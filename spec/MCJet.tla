------------------------------- MODULE MCJet -------------------------------
(* The jet rules of Jet are the derivatives they claim to be: for every      *)
(* short program, gradient and Hessian agree with central differences of the *)
(* program's values (of its gradients) at a step of 1e-12, computed at 40    *)
(* digits.                                                                   *)
EXTENDS Jet, TLC
CONSTANTS MaxLen, Ops, Points
Pts == <<<<"0.7", "-1.3">>, <<"0.4", "0.3">>>>
VARIABLES prog, at
vars == <<prog, at>>
X(p) == p
Instr(n) == {[o |-> o, a |-> a, b |-> b, c |-> "1.5"] : o \in Ops, a \in 1..n, b \in 1..n}
One(i) == i.o \in {"const", "neg", "sq", "abs2", "sin", "cos", "tan", "exp", "sinh", "cosh", "tanh", "log", "sqrt", "asin", "acos", "abs", "addc", "csub", "cdiv", "mulc", "divc", "pow", "powx", "floor", "self", "minc", "maxc", "cmin", "cmax", "iaddc", "isubc", "imulc", "idivc"}
Init == prog = <<>> /\ at \in 1..Len(Points)
Next == /\ Len(prog) < MaxLen
        /\ \E i \in Instr(2 + Len(prog)) : (One(i) => i.b = 1) /\ prog' = Append(prog, i)
        /\ UNCHANGED at
Spec == Init /\ [][Next]_vars
H == "1e-12"
Shift(x, k, d) == [i \in 1..Len(x) |-> IF i = k THEN NAdd(x[i], d) ELSE x[i]]
Last(x) == LET r == Run(prog, x, <<>>) IN r[Len(r)]
\* away from poles and kinks of the functions involved
RECURSIVE Benign(_, _)
Benign(r, k) == k > Len(prog) \/
  LET i == prog[k]  a == r[i.a].v  b == r[i.b].v IN
  /\ CASE i.o \in {"log", "sqrt"} -> NLt("0.05", a) [] i.o \in {"asin", "acos"} -> NLt(NAbs(a), "0.95") [] i.o = "div" -> NLt("0.05", NAbs(b))
       [] i.o = "cdiv" -> NLt("0.05", NAbs(a)) [] i.o = "tan" -> NLt("0.05", NAbs(NCos(a))) [] i.o = "abs" -> NLt("0.01", NAbs(a))
       [] i.o = "pow" -> NLt("0.05", a) [] i.o = "idiv" -> NLt("0.05", NAbs(b))
       [] i.o = "floor" -> NLt("0.01", NSub(a, NOf(NFloor(a)))) /\ NLt(NSub(a, NOf(NFloor(a))), "0.99") [] i.o \in {"minc", "maxc", "cmin", "cmax"} -> NLt("0.01", NAbs(NSub(a, i.c)))
       [] i.o = "atan2" -> NLt("0.05", NAdd(Sq(a), Sq(b))) /\ (NLt("0.05", b) \/ NLt("0.05", NAbs(a)))
       [] i.o \in {"min", "max", "dmin", "dmax"} -> NLt("0.01", NAbs(NSub(a, b))) \/ i.a = i.b [] i.o \in {"exp", "sinh", "cosh", "tanh"} -> NLt(NAbs(a), "4") [] OTHER -> TRUE
  /\ Benign(Append(r, Step(2, i, r)), k + 1)
Derivatives == Len(prog) = 0 \/ LET x == Points[at] IN
  Benign(Start(x, <<>>), 1) =>
    LET j == Last(x)  m == NAdd("1", Mag(Run(prog, x, <<>>), 1))  tol == NMul("1e-11", NMul(m, NMul(m, m))) IN
    \A k \in 1..2 :
      LET u == Last(Shift(x, k, H))  d == Last(Shift(x, k, NNeg(H))) IN
      /\ NClose(j.g[k], NDiv(NSub(u.v, d.v), NMul("2", H)), tol, "0")
      /\ VClose(j.h[k], VScale(NDiv("0.5", H), VSub(u.g, d.g)), tol, "0")
Symmetric == Len(prog) = 0 \/ LET j == Last(Points[at]) IN Benign(Start(Points[at], <<>>), 1) => NClose(j.h[1][2], j.h[2][1], "1e-25", "1e-25")
=============================================================================
