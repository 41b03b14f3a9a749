SPECIFICATION Spec
CONSTANTS NProb = 3
 Patterns <- PatternsQP
 NVar = 3
 MaxLen = 3
 Reuse = TRUE
CONSTRAINT Emit
INVARIANTS Transparent ReuseIsSound
