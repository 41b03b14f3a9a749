CONSTANTS
 N = 2
 Diag <- DiagQ
 Off <- OffQ
 Wide = 3
SPECIFICATION Spec
INVARIANT Solved
