CONSTANTS
 Entries <- EntriesQ
 Inputs <- InputsQ
 Weights <- WeightsQ
 Steps = {"1e-5", "0.5", "1", "1.9"}
 MaxSteps = 2
 Best = FALSE
SPECIFICATION Spec
INVARIANTS AlwaysStable AlwaysSymmetric ResidualDecreases Predicts
