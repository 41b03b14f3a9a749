SPECIFICATION Spec
CONSTANT Dims <- DimsDeep
CONSTANT Horizons <- HorDeep
CONSTANT MaxMoves = 2
INVARIANT Derivatives
INVARIANT Times
INVARIANT Exactness
