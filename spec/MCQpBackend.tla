---------------------------- MODULE MCQpBackend ----------------------------
(* Every history of cold and warm solves works on the program stated last.   *)
EXTENDS QpBackend, TLC
CONSTANTS Problems, Depth
VARIABLES b, stated, n
Init == b = Empty /\ stated = <<>> /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ \E p \in Problems :
             /\ stated' = <<p>>
             /\ \/ b' = Cold(b, <<p>>)
                \/ b.ready /\ b' = Warm(b, <<p>>)
Spec == Init /\ [][Next]_<<b, stated, n>>
OnTheStated == b.ready => b.data = stated
=============================================================================
