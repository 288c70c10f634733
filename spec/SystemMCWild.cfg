SPECIFICATION Spec
CONSTANTS
  Kinds = {"con", "sep", "non", "down"}
  NOps = 2
  Tame = FALSE
  CMaxRetransmit <- McCR
  MaxRetransmit <- McSR
INVARIANTS Genuine Once Whole Fetched
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
