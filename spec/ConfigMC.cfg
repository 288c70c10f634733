SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Neutral Inside Words Emit
CHECK_DEADLOCK FALSE
