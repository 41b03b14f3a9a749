SPECIFICATION Spec
CONSTANT n = 2
CONSTANT Vals <- V3
CONSTANT Depth = 2
CONSTANT Kind = "bfgs"
INVARIANT Sym
INVARIANT Definite
INVARIANT Secant
INVARIANT Hereditary
