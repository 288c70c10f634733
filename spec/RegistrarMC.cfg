SPECIFICATION Spec
CONSTANTS N = 4
 Ids = {1, 2, 3}
INVARIANT Exact Emit
CHECK_DEADLOCK FALSE
