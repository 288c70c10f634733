SPECIFICATION Spec
CONSTANTS
  N = 4
  Inputs = {0,1,2}
CHECK_DEADLOCK FALSE
