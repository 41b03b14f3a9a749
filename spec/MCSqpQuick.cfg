SPECIFICATION Spec
CONSTANTS Steps <- StQ
 Mults <- MlQ
 Starts <- S0Q
 MaxIter = 4
 LsMax = 3
INVARIANTS Truthful Fresh Decrease Hull
