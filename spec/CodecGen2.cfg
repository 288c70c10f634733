SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
