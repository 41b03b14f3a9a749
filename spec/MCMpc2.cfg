SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Dims = 2
CONSTRAINT Emit
INVARIANTS LastWins Shapes Commute Partition
