----------------------------- MODULE QpBackend -----------------------------
(* A quadratic program handed to an external solver object that lives over   *)
(* many solves.  The solver has rules of its own: data is copied when it is  *)
(* initialised, it can be initialised again only after it was cleared, and   *)
(* updates are accepted only while it is initialised.                        *)
(* Solver state: [ready, data] where data is whatever was handed over.       *)
EXTENDS Num
Empty == [ready |-> FALSE, data |-> <<>>]
Clear(b) == Empty
Init_(b, d) == IF b.ready THEN b ELSE [ready |-> TRUE, data |-> d]
Update(b, d) == IF b.ready THEN [b EXCEPT !.data = d] ELSE b
\* a cold solve starts from a new initialisation, a warm one updates the data in place
Cold(b, d) == Init_(Clear(b), d)
Warm(b, d) == Update(b, d)
\* the stacked program of a call: general rows, then one row per variable
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
Stack(H, h, A, al, au, xl, xu) == [H |-> H, q |-> h, A |-> A \o Identity(Len(h)), l |-> al \o xl, u |-> au \o xu]
\* the library's status of a solver's status (numbers of status_t): solved also when only to reduced accuracy
StatusOf(v) == CASE v \in {1, 2} -> 0 [] v = -2 -> 1 [] v \in {-3, -4} -> 4 [] OTHER -> 2
QpmadStatusOf(v) == CASE v = 0 -> 0 [] v = 2 -> 1 [] OTHER -> 2
=============================================================================
