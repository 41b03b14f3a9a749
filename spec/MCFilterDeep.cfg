SPECIFICATION Spec
CONSTANT Top = 2
CONSTANT Cap = 3
CONSTANT MaxLen = 6
CONSTANT Beta = "0.125"
CONSTANT EmitHist = FALSE
CONSTRAINT Emit
INVARIANT Bounded
INVARIANT NewestKept
INVARIANT NoneDominatedByNewer
INVARIANT StoredRejected
INVARIANT PastRejected
INVARIANT MarginStricter
