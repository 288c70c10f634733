SPECIFICATION Spec
CONSTANTS
  N = 4
  Inputs = {0,1,2,3,4,5,6,7}
CHECK_DEADLOCK FALSE
