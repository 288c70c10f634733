SPECIFICATION Spec
CONSTANTS N = 6
 Ids = {1, 2, 3}
INVARIANT Exact Emit
CHECK_DEADLOCK FALSE
