SPECIFICATION Spec
CONSTANT NX = 1
CONSTANT NU = 1
CONSTANT NODES = 1
CONSTANT NP = 1
CONSTANT Vals <- V3
CONSTANT Depth = 2
INVARIANT Shape
INVARIANT Definite
INVARIANT Secant
