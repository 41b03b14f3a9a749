SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANT NodesFine
INVARIANT Differentiates
INVARIANT Integrates
INVARIANT Orthogonal
INVARIANT Cardinal
