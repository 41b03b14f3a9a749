------------------------------ MODULE MCAdmm ------------------------------
(* Exhaustive check of the splitting solvers over every small problem and    *)
(* setting below (both solvers, every constraint class on the row and on the *)
(* first variable, feasible and infeasible), including termination.          *)
EXTENDS Admm
CONSTANTS Rows, Boxes, Hs, Sets, MaxIters, Guess

RowB == [ineq |-> <<"-1", "1">>, eq |-> <<"0.5", "0.5">>, lo |-> <<"0.25", "inf">>, up |-> <<"-inf", "-0.25">>,
         loose |-> <<"-inf", "inf">>, far |-> <<"7", "9">>, narrow |-> <<"0", "0.00011">>, almost |-> <<"0", "0.00009">>]
HM == [pd |-> <<<<"2", "0.5">>, <<"0.5", "1">>>>, psd |-> <<<<"1", "1">>, <<"1", "1">>>>, zero |-> <<<<"0", "0">>, <<"0", "0">>>>]
St == [a |-> [alpha |-> "1", check |-> 1, adaptive |-> FALSE, interval |-> 1, rho |-> "0.1", eps |-> "1e-2"],
       b |-> [alpha |-> "1.6", check |-> 2, adaptive |-> TRUE, interval |-> 1, rho |-> "0.1", eps |-> "1e-2"],
       c |-> [alpha |-> "1.6", check |-> 0, adaptive |-> TRUE, interval |-> 2, rho |-> "4", eps |-> "1e-2"],
       d |-> [alpha |-> "0.75", check |-> 3, adaptive |-> TRUE, interval |-> 3, rho |-> "1", eps |-> "1e-3"]]
Problem(kd, r, b, hm, st, mi, g) ==
  [kind |-> kd, n |-> 2, m |-> 1, H |-> HM[hm], h |-> <<"-1", "0.5">>, A |-> <<<<"1", "-0.5">>>>,
   al |-> <<RowB[r][1]>>, au |-> <<RowB[r][2]>>, xl |-> <<RowB[b][1], "-2">>, xu |-> <<RowB[b][2], "2">>,
   x0 |-> IF g THEN <<"0.5", "1">> ELSE <<"0", "0">>, y0 |-> IF g THEN <<"0.25", "-0.5", "0">> ELSE <<"0", "0", "0">>,
   regul |-> "1e-9", slack |-> <<"0", "0">>,
   set |-> [eps_abs |-> St[st].eps, eps_rel |-> St[st].eps, max_iter |-> mi, rho |-> St[st].rho, sigma |-> "1e-3", alpha |-> St[st].alpha,
            check |-> St[st].check, adaptive |-> St[st].adaptive, interval |-> St[st].interval, adtol |-> "2"]]
MCInit == \E kd \in {"admm", "box"}, r \in Rows, b \in Boxes, hm \in Hs, st \in Sets, mi \in MaxIters, g \in Guess :
            StartWith(Problem(kd, r, b, hm, st, mi, g))
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
