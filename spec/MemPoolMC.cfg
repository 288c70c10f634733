SPECIFICATION Spec
CONSTANTS
    Num = 4
    BufLen = 2
    Handles = {1, 2, 3, 4, 5}
INVARIANTS Inv NoFalseExhaustion
CHECK_DEADLOCK FALSE
