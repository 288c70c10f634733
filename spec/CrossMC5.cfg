SPECIFICATION Spec
CONSTANTS
  N = 5
  MediumLen = 1024
INVARIANT RoundTrip InOrder
CHECK_DEADLOCK FALSE
