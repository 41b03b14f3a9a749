CONSTANTS
 Entries <- EntriesD
 Inputs <- InputsD
 Weights <- WeightsD
 Steps = {"1e-5", "0.1", "0.25", "0.5", "0.75", "1", "1.25", "1.5", "1.9"}
 MaxSteps = 12
 Best = TRUE
SPECIFICATION Spec
INVARIANTS AlwaysStable AlwaysSymmetric ResidualDecreases Converges NonNegative
