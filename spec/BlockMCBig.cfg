SPECIFICATION Spec
CONSTANTS
    Nums <- BigNums
    Lens = {1, 2, 3}
INVARIANT Inv
CHECK_DEADLOCK FALSE
