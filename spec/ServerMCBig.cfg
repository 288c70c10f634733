SPECIFICATION Spec
CONSTANTS
  EPs = {1, 2}
  MIDs = {0, 1, 2, 3, 4, 5}
  NT = 1
  MaxTime = 9
  MaxSteps = 4
  AckTimeoutMin <- McMin
  AckTimeoutMax <- McMax
  MaxRetransmit <- McRetransmit
  Sec <- McSec
INVARIANTS Bounded AtMostOnce Matching PendingOK
PROPERTIES Lru Isolation
CHECK_DEADLOCK FALSE
