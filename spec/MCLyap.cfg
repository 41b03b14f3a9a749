CONSTANTS
 N = 3
 Diag <- DiagD
 Off <- OffD
 Wide = 2
SPECIFICATION Spec
INVARIANT Solved
