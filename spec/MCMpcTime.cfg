SPECIFICATION Spec
CONSTANTS MaxN = 7
 MaxS = 5
INVARIANTS Increasing Ends AtNodes Junctions Reproduced Parts
