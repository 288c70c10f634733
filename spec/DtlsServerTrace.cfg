SPECIFICATION DSpec
INVARIANT Inv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
