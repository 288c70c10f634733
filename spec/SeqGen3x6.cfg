SPECIFICATION Spec
CONSTANTS
  N = 6
  Inputs = {0,1,2}
CHECK_DEADLOCK FALSE
