SPECIFICATION Spec
CONSTANTS
  EPs = {1, 2, 3}
  MIDs = {0, 1, 2, 3}
  NT = 2
  MaxTime = 4
  MaxSteps = 3
  AckTimeoutMin <- McMin
  AckTimeoutMax <- McMax
  MaxRetransmit <- McRetransmit
  Sec <- McSec
INVARIANTS Bounded AtMostOnce Matching PendingOK
PROPERTIES Lru Isolation
CHECK_DEADLOCK FALSE
