SPECIFICATION Spec
CONSTANT Dims <- DimsQuick
CONSTANT Horizons <- HorQuick
CONSTANT MaxMoves = 1
INVARIANT Derivatives
INVARIANT Times
INVARIANT Exactness
