SPECIFICATION Spec
CONSTANTS
  N = 4
  Inputs = {0,1,2,3,4,5,6,7,8,9,10,11}
CHECK_DEADLOCK FALSE
