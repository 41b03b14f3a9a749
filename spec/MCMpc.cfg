SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Dims = 1
CONSTRAINT Emit
INVARIANTS LastWins Shapes Commute Partition
