SPECIFICATION Spec
CONSTANT Depth = 1
CONSTANT Big = TRUE
INVARIANT Composed
INVARIANT RoundTrip
INVARIANT SolRoundTrip
INVARIANT SameSolutions
INVARIANT BoundClasses
