SPECIFICATION Spec
CONSTANTS
    Nums = {0, 1, 2, 7, 8, 14, 15, 16, 17, 31, 32, 255, 256, 4094, 4095, 4096, 65535, 65536, 1048574, 1048575, 1048576}
    Lens = {1, 2, 3}
INVARIANT Inv
CHECK_DEADLOCK FALSE
