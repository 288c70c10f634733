SPECIFICATION Spec
CONSTANT MediumLen = 1024
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
