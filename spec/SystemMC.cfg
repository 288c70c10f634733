SPECIFICATION Spec
CONSTANTS
  Kinds = {"con", "sep", "non", "up", "down"}
  NOps = 3
  Tame = TRUE
  CMaxRetransmit <- McCR
  MaxRetransmit <- McSR
INVARIANTS Genuine Once Whole Fetched
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
