SPECIFICATION Spec
CONSTANTS Steps <- St
 Mults <- Ml
 Starts <- S0
 MaxIter = 4
 LsMax = 3
INVARIANTS Truthful Fresh Decrease Hull
