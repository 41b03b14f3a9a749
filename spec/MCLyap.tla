------------------------------- MODULE MCLyap -------------------------------
(* Bartels-Stewart by back-substitution, one column per step from the last:  *)
(* T X + X T* = Q with T upper triangular over the complex numbers.  What is *)
(* solved stays solved: the equation holds in every finished column.         *)
EXTENDS Num, TLC
CONSTANTS N, Diag, Off, Wide
VARIABLES T, Q, X, k
DiagQ == {<<1, 0>>, <<-2, 1>>, <<-2, -1>>, <<0, 3>>, <<3, 2>>}
OffQ == {<<0, 0>>, <<1, -1>>, <<-2, 0>>, <<0, 2>>}
DiagD == {<<1, 0>>, <<-2, 1>>, <<-2, -1>>, <<3, 2>>}
OffD == {<<0, 0>>, <<1, -1>>, <<-2, 1>>}
vars == <<T, Q, X, k>>
\* complex numbers as pairs of numerals
CAdd(a, b) == <<NAdd(a[1], b[1]), NAdd(a[2], b[2])>>
CSub(a, b) == <<NSub(a[1], b[1]), NSub(a[2], b[2])>>
CMul(a, b) == <<NSub(NMul(a[1], b[1]), NMul(a[2], b[2])), NAdd(NMul(a[1], b[2]), NMul(a[2], b[1]))>>
Conj(a) == <<a[1], NNeg(a[2])>>
CDiv(a, b) == LET d == NAdd(NMul(b[1], b[1]), NMul(b[2], b[2])) p == CMul(a, Conj(b)) IN <<NDiv(p[1], d), NDiv(p[2], d)>>
Zero == <<"0", "0">>
RECURSIVE SumOver(_, _, _)
SumOver(f, lo, hi) == IF lo > hi THEN Zero ELSE CAdd(f[lo], SumOver(f, lo + 1, hi))
Tiny(a) == NLeq(NAdd(NAbs(a[1]), NAbs(a[2])), "1e-25")
\* decimal digits of an index choose the entries
Of(z) == <<NOf(z[1]), NOf(z[2])>>
Uppers == {f \in [(1..N) \X (1..N) -> {Of(d) : d \in Diag} \cup {Of(o) : o \in Off} \cup {Zero}] :
             \A p \in (1..N) \X (1..N) : IF p[1] = p[2] THEN f[p] \in {Of(d) : d \in Diag} ELSE IF p[1] > p[2] THEN f[p] = Zero ELSE f[p] \in {Of(o) : o \in Off}}
Rights == {[p \in (1..N) \X (1..N) |-> Of(<<((s * p[1] + p[2] * p[2]) % 5) - 2, ((p[1] + s * p[2]) % 3) - 1>>)] : s \in 1..Wide}
Solvable(t) == \A i, j \in 1..N : ~Tiny(CAdd(t[<<i, i>>], Conj(t[<<j, j>>])))
Init == /\ T \in {t \in Uppers : Solvable(t)}
        /\ Q \in Rights
        /\ X = [p \in (1..N) \X (1..N) |-> Zero] /\ k = N
\* (T + c I) x = v, from the last row
RECURSIVE Back(_, _, _)
Back(c, v, i) == IF i > N THEN [j \in {} |-> Zero] ELSE
  LET below == Back(c, v, i + 1)
      s == SumOver([j \in (i + 1)..N |-> CMul(T[<<i, j>>], below[j])], i + 1, N)
      x == CDiv(CSub(v[i], s), CAdd(T[<<i, i>>], c))
  IN [j \in i..N |-> IF j = i THEN x ELSE below[j]]
Next == /\ k > 0
        /\ LET v == [r \in 1..N |-> CSub(Q[<<r, k>>], SumOver([j \in (k + 1)..N |-> CMul(X[<<r, j>>], Conj(T[<<k, j>>]))], k + 1, N))]
               x == Back(Conj(T[<<k, k>>]), v, 1)
           IN X' = [p \in DOMAIN X |-> IF p[2] = k THEN x[p[1]] ELSE X[p]]
        /\ k' = k - 1 /\ UNCHANGED <<T, Q>>
Spec == Init /\ [][Next]_vars
Residual(r, c) == CSub(CAdd(SumOver([j \in 1..N |-> CMul(T[<<r, j>>], X[<<j, c>>])], 1, N), SumOver([j \in 1..N |-> CMul(X[<<r, j>>], Conj(T[<<c, j>>]))], 1, N)), Q[<<r, c>>])
\* X T* of column c needs the columns from c on only
Solved == \A c \in (k + 1)..N : \A r \in 1..N : Tiny(Residual(r, c))
=============================================================================
