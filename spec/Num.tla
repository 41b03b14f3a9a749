-------------------------------- MODULE Num --------------------------------
(* Real arithmetic for the specifications.  A numeral is a string (a decimal *)
(* such as "-1.25e-3", or "inf", "-inf", "nan"); vectors are sequences of    *)
(* numerals and matrices are sequences of rows.  Val(s) is the real number   *)
(* denoted by s.  TLC evaluates these operators by the module override       *)
(* java/Num.java, which computes with 40 significant decimal digits (60 in   *)
(* elimination), i.e. more than twice the precision of the implementation's  *)
(* doubles; infinities and nan follow IEEE-754.                              *)
EXTENDS Integers, Sequences

Numeral == STRING

\* Scalar operators: Val(NAdd(a,b)) = Val(a) + Val(b), and so on.
NAdd(a, b) == CHOOSE r \in Numeral : TRUE
NSub(a, b) == CHOOSE r \in Numeral : TRUE
NMul(a, b) == CHOOSE r \in Numeral : TRUE
NDiv(a, b) == CHOOSE r \in Numeral : TRUE
NNeg(a) == NSub("0", a)
NLeq(a, b) == CHOOSE r \in BOOLEAN : TRUE      \* Val(a) <= Val(b); FALSE if either is nan
NLt(a, b) == NLeq(a, b) /\ ~NLeq(b, a)
NEq(a, b) == NLeq(a, b) /\ NLeq(b, a)
NFin(a) == CHOOSE r \in BOOLEAN : TRUE         \* neither infinite nor nan
NAbs(a) == IF NLeq("0", a) THEN a ELSE NNeg(a)
NMax(a, b) == IF NLt(a, b) THEN b ELSE a
NMin(a, b) == IF NLt(b, a) THEN b ELSE a
NSqrt(a) == CHOOSE r \in Numeral : NEq(NMul(r, r), a)
NSin(a) == CHOOSE r \in Numeral : TRUE
NCos(a) == CHOOSE r \in Numeral : TRUE
NExp(a) == CHOOSE r \in Numeral : TRUE
NLog(a) == CHOOSE r \in Numeral : TRUE         \* of a positive number
NAsin(a) == CHOOSE r \in Numeral : TRUE        \* of a number in (-1, 1)
NCosPi(j, n) == CHOOSE r \in Numeral : TRUE    \* cos(pi * j / n), j and n integers
NFloor(a) == CHOOSE r \in Int : TRUE
RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN "1" ELSE NMul(a, NPow(a, k - 1))
NOf(i) == CHOOSE r \in Numeral : TRUE          \* numeral of an integer (or of a numeral)

\* |a - b| <= at + rt * max(|a|, |b|); infinities only equal themselves, nan nothing
NClose(a, b, at, rt) ==
  IF NFin(a) /\ NFin(b)
  THEN NLeq(NAbs(NSub(a, b)), NAdd(at, NMul(rt, NMax(NAbs(a), NAbs(b)))))
  ELSE NEq(a, b)

\* Vectors
VAdd(a, b) == [i \in 1..Len(a) |-> NAdd(a[i], b[i])]
VSub(a, b) == [i \in 1..Len(a) |-> NSub(a[i], b[i])]
VMul(a, b) == [i \in 1..Len(a) |-> NMul(a[i], b[i])]
VDiv(a, b) == [i \in 1..Len(a) |-> NDiv(a[i], b[i])]
VMax(a, b) == [i \in 1..Len(a) |-> NMax(a[i], b[i])]
VMin(a, b) == [i \in 1..Len(a) |-> NMin(a[i], b[i])]
VScale(c, a) == [i \in 1..Len(a) |-> NMul(c, a[i])]
VNeg(a) == [i \in 1..Len(a) |-> NNeg(a[i])]
VConst(n, c) == [i \in 1..n |-> c]
RECURSIVE VSum(_)
VSum(a) == IF Len(a) = 0 THEN "0" ELSE NAdd(Head(a), VSum(Tail(a)))
VDot(a, b) == VSum(VMul(a, b))
VNorm1(a) == VSum([i \in 1..Len(a) |-> NAbs(a[i])])
RECURSIVE VNormInf(_)
VNormInf(a) == IF Len(a) = 0 THEN "0" ELSE NMax(NAbs(Head(a)), VNormInf(Tail(a)))
RECURSIVE VMaxCoeff(_)
VMaxCoeff(a) == IF Len(a) = 0 THEN "-inf" ELSE NMax(Head(a), VMaxCoeff(Tail(a)))
VFin(a) == \A i \in 1..Len(a) : NFin(a[i])
VClose(a, b, at, rt) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NClose(a[i], b[i], at, rt)

\* Matrices
MVec(m, x) == [i \in 1..Len(m) |-> VDot(m[i], x)]
MTVec(n, m, y) == [j \in 1..n |-> VSum([i \in 1..Len(m) |-> NMul(m[i][j], y[i])])]
MTr(m) == IF Len(m) = 0 THEN <<>> ELSE [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
MMul(a, b) == LET bt == MTr(b) IN [i \in 1..Len(a) |-> [j \in 1..Len(bt) |-> VDot(a[i], bt[j])]]
MAdd(a, b) == [i \in 1..Len(a) |-> VAdd(a[i], b[i])]
MScale(c, a) == [i \in 1..Len(a) |-> VScale(c, a[i])]
VOuter(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> NMul(a[i], b[j])]]
RECURSIVE MNormMax(_)
MNormMax(m) == IF Len(m) = 0 THEN "0" ELSE NMax(VNormInf(Head(m)), MNormMax(Tail(m)))
MClose(a, b, at, rt) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], at, rt)
MSolve(k, b) == CHOOSE x \in Seq(Numeral) : MVec(k, x) = b   \* <<>> when k is singular
MCond(m) == CHOOSE r \in Numeral : TRUE          \* infinity-norm condition number (an estimate of rounding error only)
\* all pivots of the symmetric elimination exceed the floor
MPosDef(m, floor) == CHOOSE r \in BOOLEAN : TRUE

\* Multivariate polynomials: sequences of monomials [c |-> coefficient, e |-> exponents]
Monomial(m, x) == LET RECURSIVE go(_)
                      go(i) == IF i > Len(m.e) THEN m.c ELSE NMul(NPow(x[i], m.e[i]), go(i + 1))
                  IN go(1)
PolyEval(p, x) == VSum([i \in 1..Len(p) |-> Monomial(p[i], x)])

\* identity; forces TLC to evaluate a lazily represented sequence once
Eager(v) == v
=============================================================================
