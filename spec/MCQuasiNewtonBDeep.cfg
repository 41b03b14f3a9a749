SPECIFICATION Spec
CONSTANT n = 2
CONSTANT Vals <- V2
CONSTANT Depth = 4
CONSTANT Kind = "bfgs"
INVARIANT Sym
INVARIANT Definite
INVARIANT Secant
INVARIANT Hereditary
