SPECIFICATION Spec
CONSTANT N = 4
INVARIANT RoundTrip Clean Emit
CHECK_DEADLOCK FALSE
