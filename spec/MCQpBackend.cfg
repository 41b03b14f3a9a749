SPECIFICATION Spec
CONSTANTS Problems = {1, 2, 3}
 Depth = 6
INVARIANT OnTheStated
CHECK_DEADLOCK FALSE
