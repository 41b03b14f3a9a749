SPECIFICATION Spec
CONSTANT MaxLen = 3
CONSTANT Ops = {"pow", "atan2", "floor", "idiv"}
CONSTANT Points <- Pts
INVARIANT Derivatives
INVARIANT Symmetric
