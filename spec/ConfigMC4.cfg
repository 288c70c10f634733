SPECIFICATION Spec
CONSTANT N = 4
INVARIANT Neutral Inside Words Emit
CHECK_DEADLOCK FALSE
