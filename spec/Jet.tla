-------------------------------- MODULE Jet --------------------------------
(* Second-order jets: value, gradient and Hessian of an expression in n      *)
(* variables, and straight-line programs over them.  They define what the    *)
(* automatic differentiation of the library must deliver.                    *)
EXTENDS Num

Zeros(n) == VConst(n, "0")
ZeroMat(n) == [i \in 1..n |-> Zeros(n)]
JConst(n, c) == [v |-> c, g |-> Zeros(n), h |-> ZeroMat(n)]
JVar(n, i, x) == [v |-> x, g |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"], h |-> ZeroMat(n)]
JAdd(a, b) == [v |-> NAdd(a.v, b.v), g |-> VAdd(a.g, b.g), h |-> MAdd(a.h, b.h)]
JScale(c, a) == [v |-> NMul(c, a.v), g |-> VScale(c, a.g), h |-> MScale(c, a.h)]
JNeg(a) == JScale("-1", a)
JSub(a, b) == JAdd(a, JNeg(b))
JMul(a, b) == [v |-> NMul(a.v, b.v),
               g |-> VAdd(VScale(b.v, a.g), VScale(a.v, b.g)),
               h |-> MAdd(MAdd(MScale(b.v, a.h), MScale(a.v, b.h)), MAdd(VOuter(a.g, b.g), VOuter(b.g, a.g)))]
\* composition with a scalar function of value f, first and second derivative f1, f2 at a.v
JFun(a, f, f1, f2) == [v |-> f, g |-> VScale(f1, a.g), h |-> MAdd(MScale(f1, a.h), MScale(f2, VOuter(a.g, a.g)))]
Sq(x) == NMul(x, x)
JInv(a) == LET r == NDiv("1", a.v) IN JFun(a, r, NNeg(Sq(r)), NMul("2", NMul(r, Sq(r))))
JDiv(a, b) == JMul(a, JInv(b))
JSin(a) == LET s == NSin(a.v) IN JFun(a, s, NCos(a.v), NNeg(s))
JCos(a) == LET c == NCos(a.v) IN JFun(a, c, NNeg(NSin(a.v)), NNeg(c))
JExp(a) == LET e == NExp(a.v) IN JFun(a, e, e, e)
JLog(a) == LET r == NDiv("1", a.v) IN JFun(a, NLog(a.v), r, NNeg(Sq(r)))
JSqrt(a) == LET s == NSqrt(a.v) IN JFun(a, s, NDiv("0.5", s), NDiv("-0.25", NMul(s, a.v)))
JTan(a) == LET t == NDiv(NSin(a.v), NCos(a.v))  d == NAdd("1", Sq(t)) IN JFun(a, t, d, NMul("2", NMul(t, d)))
Sinh(x) == NDiv(NSub(NExp(x), NExp(NNeg(x))), "2")
Cosh(x) == NDiv(NAdd(NExp(x), NExp(NNeg(x))), "2")
JSinh(a) == JFun(a, Sinh(a.v), Cosh(a.v), Sinh(a.v))
JCosh(a) == JFun(a, Cosh(a.v), Sinh(a.v), Cosh(a.v))
JTanh(a) == LET t == NDiv(Sinh(a.v), Cosh(a.v))  d == NSub("1", Sq(t)) IN JFun(a, t, d, NMul("-2", NMul(t, d)))
\* 1 / sqrt(1 - x^2) and its derivative
Isq(x) == NDiv("1", NSqrt(NSub("1", Sq(x))))
JAsin(a) == JFun(a, NAsin(a.v), Isq(a.v), NMul(a.v, NMul(Isq(a.v), Sq(Isq(a.v)))))
HalfPi == "1.570796326794896619231321691639751442098584699687552910487472296153908203143"
JAcos(a) == LET j == JAsin(a) IN JAdd(JConst(Len(a.g), HalfPi), JNeg(j))
\* x^c: any c for positive x, non-negative whole c otherwise
RECURSIVE PowInt(_, _)
PowInt(x, c) == IF NLeq(c, "0") THEN "1" ELSE NMul(x, PowInt(x, NSub(c, "1")))
RealPow(x, c) == IF NLt("0", x) THEN NExp(NMul(c, NLog(x))) ELSE PowInt(x, c)
KPow(k, x, c) == IF NEq(k, "0") THEN "0" ELSE NMul(k, RealPow(x, c))
JPow(a, c) == JFun(a, RealPow(a.v, c), KPow(c, a.v, NSub(c, "1")), KPow(NMul(c, NSub(c, "1")), a.v, NSub(c, "2")))
\* angle of the point (x, y)
Angle(y, x) ==
  LET r == NSqrt(NAdd(Sq(x), Sq(y)))  s == NAsin(NDiv(y, r))  k == NAsin(NDiv(x, r)) IN
  IF NLeq(NAbs(y), NAbs(x)) THEN (IF NLt("0", x) THEN s ELSE IF NLt(y, "0") THEN NSub(NNeg(NMul("2", HalfPi)), s) ELSE NSub(NMul("2", HalfPi), s))
  ELSE IF NLt("0", y) THEN NSub(HalfPi, k) ELSE NSub(k, HalfPi)
JAtan2(y, x) ==
  LET q == NAdd(Sq(x.v), Sq(y.v))  fy == NDiv(x.v, q)  fx == NDiv(NNeg(y.v), q)
      fxx == NDiv(NMul("2", NMul(x.v, y.v)), Sq(q))  fxy == NDiv(NSub(Sq(y.v), Sq(x.v)), Sq(q)) IN
  [v |-> Angle(y.v, x.v), g |-> VAdd(VScale(fy, y.g), VScale(fx, x.g)),
   h |-> MAdd(MAdd(MScale(fy, y.h), MScale(fx, x.h)),
              MAdd(MAdd(MScale(NNeg(fxx), VOuter(y.g, y.g)), MScale(fxx, VOuter(x.g, x.g))), MScale(fxy, MAdd(VOuter(y.g, x.g), VOuter(x.g, y.g)))))]
\* constant between the whole numbers
JFloor(a) == JConst(Len(a.g), NOf(NFloor(a.v)))
JAbs(a) == IF NLt(a.v, "0") THEN JNeg(a) ELSE a

\* an instruction [o |-> operation, a, b |-> register numbers, c |-> constant]; fused forms exercise nested expressions
Step(n, i, r) ==
  LET a == r[i.a]  b == r[i.b]  K == JConst(n, i.c) IN
  CASE i.o = "const" -> K
    [] i.o = "add" -> JAdd(a, b) [] i.o = "sub" -> JSub(a, b) [] i.o = "mul" -> JMul(a, b) [] i.o = "div" -> JDiv(a, b)
    [] i.o \in {"addc", "cadd"} -> JAdd(a, K) [] i.o = "subc" -> JSub(a, K) [] i.o = "csub" -> JSub(K, a)
    [] i.o \in {"mulc", "cmul"} -> JScale(i.c, a) [] i.o = "divc" -> JScale(NDiv("1", i.c), a) [] i.o = "cdiv" -> JScale(i.c, JInv(a))
    [] i.o = "neg" -> JNeg(a) [] i.o = "sq" -> JMul(a, a) [] i.o = "abs" -> JAbs(a) [] i.o = "abs2" -> JMul(a, a)
    [] i.o = "sin" -> JSin(a) [] i.o = "cos" -> JCos(a) [] i.o = "tan" -> JTan(a) [] i.o = "exp" -> JExp(a) [] i.o = "log" -> JLog(a)
    [] i.o = "sqrt" -> JSqrt(a) [] i.o = "sinh" -> JSinh(a) [] i.o = "cosh" -> JCosh(a) [] i.o = "tanh" -> JTanh(a)
    [] i.o = "asin" -> JAsin(a) [] i.o = "acos" -> JAcos(a)
    [] i.o \in {"min", "dmin"} -> (IF NLt(b.v, a.v) THEN b ELSE a) [] i.o \in {"max", "dmax"} -> (IF NLt(a.v, b.v) THEN b ELSE a)
    [] i.o = "acc" -> JAdd(JMul(a, b), JSub(a, b))              \* compound assignments: += * , -= , *= , /=
    [] i.o = "mix" -> JSub(JAdd(JMul(a, JSin(b)), JScale(i.c, JSub(b, JMul(a, a)))), JDiv(b, JAdd(K, JMul(a, a))))
    [] i.o = "pow" -> JPow(a, i.c) [] i.o = "powx" -> JPow(JAdd(JMul(a, a), K), i.c) [] i.o = "atan2" -> JAtan2(a, b) [] i.o = "floor" -> JFloor(a)
    [] i.o \in {"minc", "cmin"} -> (IF NLt(i.c, a.v) THEN K ELSE a) [] i.o \in {"maxc", "cmax"} -> (IF NLt(a.v, i.c) THEN K ELSE a)
    [] i.o \in {"iadd", "real"} -> JAdd(a, b) [] i.o = "isub" -> JSub(a, b) [] i.o = "imul" -> JMul(a, b) [] i.o = "idiv" -> JDiv(a, b)
    [] i.o = "iaddc" -> JAdd(a, K) [] i.o = "isubc" -> JSub(a, K) [] i.o = "imulc" -> JScale(i.c, a) [] i.o = "idivc" -> JScale(NDiv("1", i.c), a)
    [] i.o = "iexpr" -> JMul(JSub(JAdd(a, JMul(a, b)), JScale(i.c, b)), JAdd(a, b))
    [] i.o = "self" -> LET w == JAdd(JMul(a, a), a) IN JMul(w, w)
    [] i.o = "hyp" -> JSqrt(JAdd(JAdd(JMul(a, a), JMul(b, b)), K))
RECURSIVE Exec(_, _, _, _)
Exec(n, prog, k, regs) == IF k > Len(prog) THEN regs ELSE Exec(n, prog, k + 1, Append(regs, Step(n, prog[k], regs)))
\* registers start with the n variables x and then the constants q
Start(x, q) == [i \in 1..(Len(x) + Len(q)) |-> IF i <= Len(x) THEN JVar(Len(x), i, x[i]) ELSE JConst(Len(x), q[i - Len(x)])]
Run(prog, x, q) == Eager(Exec(Len(x), prog, 1, Start(x, q)))
RECURSIVE Mag(_, _)
Mag(r, k) == IF k > Len(r) THEN "1" ELSE NMax(NMax(NAbs(r[k].v), NMax(VNormInf(r[k].g), MNormMax(r[k].h))), Mag(r, k + 1))
RECURSIVE JSum(_, _)
JSum(n, s) == IF s = <<>> THEN JConst(n, "0") ELSE JAdd(Head(s), JSum(n, Tail(s)))
=============================================================================
