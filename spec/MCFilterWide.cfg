SPECIFICATION Spec
CONSTANT Top = 3
CONSTANT Cap = 2
CONSTANT MaxLen = 5
CONSTANT Beta = "0.125"
CONSTANT EmitHist = FALSE
CONSTRAINT Emit
INVARIANT Bounded
INVARIANT NewestKept
INVARIANT NoneDominatedByNewer
INVARIANT StoredRejected
INVARIANT PastRejected
INVARIANT MarginStricter
