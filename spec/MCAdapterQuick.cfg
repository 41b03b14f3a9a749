SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS Presented RoundTrip Stationary
CHECK_DEADLOCK FALSE
