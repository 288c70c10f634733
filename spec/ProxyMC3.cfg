SPECIFICATION Spec
CONSTANTS MediumLen = 1024
 NReq = 3
 Pieces_ = {7, 31}
INVARIANTS InOrder OneEach Refused AllAnswered OneClient
PROPERTY Live
CHECK_DEADLOCK FALSE
