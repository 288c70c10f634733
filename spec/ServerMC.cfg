SPECIFICATION Spec
CONSTANTS
  EPs = {1, 2}
  MIDs = {0, 1, 2}
  NT = 1
  MaxTime = 3
  MaxSteps = 3
  AckTimeoutMin <- McMin
  AckTimeoutMax <- McMax
  MaxRetransmit <- McRetransmit
  Sec <- McSec
INVARIANTS Bounded AtMostOnce Matching PendingOK
PROPERTIES Lru Isolation
CHECK_DEADLOCK FALSE
