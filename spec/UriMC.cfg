SPECIFICATION Spec
CONSTANT N = 3
INVARIANT RoundTrip Clean Emit
CHECK_DEADLOCK FALSE
