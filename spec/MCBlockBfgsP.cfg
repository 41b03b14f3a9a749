SPECIFICATION Spec
CONSTANT NX = 1
CONSTANT NU = 0
CONSTANT NODES = 2
CONSTANT NP = 1
CONSTANT Vals <- V3
CONSTANT Depth = 1
INVARIANT Shape
INVARIANT Definite
INVARIANT Secant
