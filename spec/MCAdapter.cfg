SPECIFICATION Spec
CONSTANT Depth = 9
INVARIANTS Presented RoundTrip Stationary
CHECK_DEADLOCK FALSE
