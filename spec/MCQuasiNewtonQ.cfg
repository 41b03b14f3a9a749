SPECIFICATION Spec
CONSTANT n = 3
CONSTANT Vals <- V3
CONSTANT Depth = 3
CONSTANT Kind = "quad"
INVARIANT Sym
INVARIANT Definite
INVARIANT Secant
INVARIANT Hereditary
