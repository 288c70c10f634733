SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b", "c", "d"}
  Tags = {1, 2}
  Size = 3
  Room <- Size
  MaxOps = 8
INVARIANTS One Contract
CHECK_DEADLOCK FALSE
