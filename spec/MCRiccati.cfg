CONSTANTS
 Entries <- EntriesD
 Inputs <- InputsD
 Weights <- WeightsD
 Steps = {"1e-5", "0.3", "1", "1.4", "1.9"}
 MaxSteps = 2
 Best = FALSE
SPECIFICATION Spec
INVARIANTS AlwaysStable AlwaysSymmetric ResidualDecreases Predicts
