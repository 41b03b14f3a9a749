SPECIFICATION Spec
CONSTANT Depth = 1
CONSTANT Big = FALSE
INVARIANT Composed
INVARIANT RoundTrip
INVARIANT SolRoundTrip
INVARIANT SameSolutions
INVARIANT BoundClasses
