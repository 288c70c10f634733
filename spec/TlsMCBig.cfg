SPECIFICATION Spec
CONSTANTS
  Budget = 2
  Len0 = 3
  MaxEv = 13
INVARIANTS AsComputed InTime HeldMeansProved ClosedMeansReleased
CHECK_DEADLOCK FALSE
