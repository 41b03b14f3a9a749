SPECIFICATION Spec
CONSTANT n = 3
CONSTANT Vals <- V3
CONSTANT Depth = 1
CONSTANT Kind = "bfgs"
INVARIANT Sym
INVARIANT Definite
INVARIANT Secant
INVARIANT Hereditary
