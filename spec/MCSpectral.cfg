SPECIFICATION Spec
CONSTANT MaxN = 7
INVARIANT NodesFine
INVARIANT Differentiates
INVARIANT Integrates
INVARIANT Orthogonal
INVARIANT Cardinal
