SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Dims = 1
CONSTRAINT Emit
INVARIANTS LastWins Shapes Commute Partition
