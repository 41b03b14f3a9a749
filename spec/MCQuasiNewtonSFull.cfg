SPECIFICATION Spec
CONSTANT n = 2
CONSTANT Vals <- V4
CONSTANT Depth = 2
CONSTANT Kind = "sr1"
INVARIANT Sym
INVARIANT Definite
INVARIANT Secant
INVARIANT Hereditary
