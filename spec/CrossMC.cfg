SPECIFICATION Spec
CONSTANTS
  N = 4
  MediumLen = 1024
INVARIANT RoundTrip InOrder
CHECK_DEADLOCK FALSE
