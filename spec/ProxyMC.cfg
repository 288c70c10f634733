SPECIFICATION Spec
CONSTANTS MediumLen = 1024
 NReq = 2
 Pieces_ = {1, 20}
INVARIANTS InOrder OneEach Refused AllAnswered OneClient
PROPERTY Live
CHECK_DEADLOCK FALSE
