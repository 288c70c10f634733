SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
