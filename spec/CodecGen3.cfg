SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
