SPECIFICATION Spec
CONSTANT Top = 2
CONSTANT Cap = 2
CONSTANT MaxLen = 4
CONSTANT Beta = "0.125"
CONSTANT EmitHist = TRUE
CONSTRAINT Emit
INVARIANT Bounded
INVARIANT NewestKept
INVARIANT NoneDominatedByNewer
INVARIANT StoredRejected
INVARIANT PastRejected
INVARIANT MarginStricter
