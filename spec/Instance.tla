----------------------------- MODULE Instance -----------------------------
(* A solver (or transcription) object that is used again and again.  An      *)
(* operation has operands (key); the object additionally carries hidden      *)
(* state from its past: the sparsity pattern it analysed last.  The contract *)
(* is referential transparency: the outcome of an operation is a function of *)
(* its operands, whatever happened before on the object.  Reusing the        *)
(* analysed pattern is only offered when the pattern is unchanged.           *)
(* TLC enumerates every history up to MaxLen and prints the complete ones;   *)
(* the harness replays each of them on one real object (InstanceTrace).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NProb,      \* number of problems
          Patterns,   \* sequence: pattern id of each problem
          NVar,       \* number of operand variants (settings, cold or warm start)
          MaxLen,
          Reuse       \* TRUE: pattern reuse is part of the alphabet

VARIABLES hist, analysed, out
vars == <<hist, analysed, out>>

Op(p, v, r) == [p |-> p, v |-> v, r |-> r]
\* the design: an opaque function of the operands
Outcome(p, v) == <<p, v>>

Init == hist = <<>> /\ analysed = 0 /\ out = <<>>
Solve(p, v, r) ==
  /\ Len(hist) < MaxLen
  /\ r => Reuse /\ analysed = Patterns[p]
  /\ hist' = Append(hist, Op(p, v, r))
  /\ analysed' = Patterns[p]
  /\ out' = Append(out, Outcome(p, v))
Next == \E p \in 1..NProb, v \in 1..NVar, r \in BOOLEAN : Solve(p, v, r)
Spec == Init /\ [][Next]_vars

\* outcomes never depend on the position in the history or on pattern reuse
Transparent == \A i, j \in 1..Len(hist) : (hist[i].p = hist[j].p /\ hist[i].v = hist[j].v) => out[i] = out[j]
ReuseIsSound == \A i \in 1..Len(hist) : hist[i].r => i > 1 /\ Patterns[hist[i].p] = Patterns[hist[i - 1].p]
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson([i \in 1..Len(hist) |-> <<hist[i].p, hist[i].v, IF hist[i].r THEN 1 ELSE 0>>]))
=============================================================================
