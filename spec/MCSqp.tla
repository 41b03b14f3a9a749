-------------------------------- MODULE MCSqp --------------------------------
(* The whole algorithm on the program  min x^2 - x  s.t.  x^2 - 1 = c,       *)
(* -1 <= x <= bound, with an inner solver that may answer anything of a      *)
(* grid.  The step lengths are those of the line search.                     *)
EXTENDS Sqp, TLC
CONSTANTS Steps, Mults, Starts, MaxIter, LsMax
St == {"-1", "-0.5", "0", "0.25", "1"}
StQ == {"-1", "0", "0.5"}
Ml == {"-1", "0", "3"}
MlQ == {"0", "2"}
S0 == {"0", "2"}
S0Q == {"2"}
VARIABLES x, lam, k, status, pn, dn, viol, phase, p, y, last
vars == <<x, lam, k, status, pn, dn, viol, phase, p, y, last>>
B == [lx |-> <<"-1">>, ux |-> <<"1.5">>, lg |-> <<>>, ug |-> <<>>]
set == [tau |-> "0.5", eta |-> "0.25", ep |-> "0.25", ed |-> "0.5"]
Val(z) == [f |-> NSub(NMul(z[1], z[1]), z[1]), ce |-> <<NSub(NMul(z[1], z[1]), "1")>>, ci |-> <<>>]
Grad(z) == <<NSub(NMul("2", z[1]), "1")>>
Init == /\ x \in {<<s>> : s \in Starts} /\ lam = <<"0", "0">> /\ k = 0 /\ status = "RUNNING"
        /\ pn = "0" /\ dn = "0" /\ viol = "0" /\ phase = "answer" /\ p = <<"0">> /\ y = <<"0", "0">> /\ last = [phi0 |-> "0", phi |-> "0", slope |-> "0", a |-> "1", j |-> 0]
Answer == /\ phase = "answer" /\ status = "RUNNING"
          /\ \E s \in Steps, m1 \in Mults, m2 \in {"0", "1"} : p' = <<s>> /\ y' = <<m1, m2>>
          /\ k' = k + 1 /\ phase' = "step" /\ UNCHANGED <<x, lam, status, pn, dn, viol, last>>
Acc(j) == LET mu == Mu(y)  z == Move(x, Trial(set.tau, j), p)
          IN NLeq(Excess(Merit(B, Val(x), x, mu), Merit(B, Val(z), z, mu), Slope(B, Val(x), Grad(x), x, p, mu), set.eta, Trial(set.tau, j)), "0")
StepLen == IF \E j \in 0..(LsMax - 2) : Acc(j) THEN CHOOSE j \in 0..(LsMax - 2) : Acc(j) /\ \A i \in 0..(j - 1) : ~Acc(i) ELSE LsMax - 1
Step == /\ phase = "step"
        /\ LET j == StepLen  a == Trial(set.tau, j)  dl == VSub(y, lam)  mu == Mu(y)  nx == Eager(Move(x, a, p))  nl == Eager(Move(lam, a, dl))
               npn == NMul(a, VNormInf(p))  ndn == NMul(a, VNormInf(dl))  nv == ViolMax(B, Val(nx), nx)
           IN /\ x' = nx /\ lam' = nl
              /\ pn' = npn /\ dn' = ndn /\ viol' = nv
              /\ last' = [phi0 |-> Merit(B, Val(x), x, mu), phi |-> Merit(B, Val(nx), nx, mu), slope |-> Slope(B, Val(x), Grad(x), x, p, mu), a |-> a, j |-> j]
              /\ status' = IF Converged(npn, ndn, nv, set) THEN "SOLVED" ELSE IF k >= MaxIter THEN "MAX_ITER" ELSE "RUNNING"
        /\ phase' = "answer" /\ UNCHANGED <<k, p, y>>
Next == Answer \/ Step
Spec == Init /\ [][Next]_vars
\* success is claimed only at a point within tolerance, the limit only at the limit
Truthful == /\ status = "SOLVED" => (NLeq(pn, set.ep) /\ NLeq(dn, set.ed) /\ NLeq(ViolMax(B, Val(x), x), set.ep))
            /\ status = "MAX_ITER" => k = MaxIter
            /\ k <= MaxIter
Fresh == (phase = "answer" /\ k > 0) => NEq(viol, ViolMax(B, Val(x), x))
\* unless the trials are exhausted, the merit function obeys the decrease condition; descent directions of it never increase it
Decrease == (phase = "answer" /\ k > 0 /\ last.j < LsMax - 1) => (/\ NLeq(Excess(last.phi0, last.phi, last.slope, set.eta, last.a), "0")
                                                                /\ (NLeq(last.slope, "0") => NLeq(last.phi, last.phi0)))
\* multipliers stay within the hull of the answers
Hull == \A i \in 1..2 : NLeq("-1", lam[i]) /\ NLeq(lam[i], "3")
=============================================================================
