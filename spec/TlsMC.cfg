SPECIFICATION Spec
CONSTANTS
  Budget = 2
  Len0 = 2
  MaxEv = 10
INVARIANTS AsComputed InTime HeldMeansProved ClosedMeansReleased
CHECK_DEADLOCK FALSE
