SPECIFICATION Spec
CONSTANT MaxN = 9
INVARIANT NodesFine
INVARIANT Differentiates
INVARIANT Integrates
INVARIANT Orthogonal
INVARIANT Cardinal
