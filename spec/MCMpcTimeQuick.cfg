SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxS = 3
INVARIANTS Increasing Ends AtNodes Junctions Reproduced Parts
