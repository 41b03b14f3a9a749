SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Dims = 3
CONSTRAINT Emit
INVARIANTS LastWins Shapes Commute Partition
