SPECIFICATION Spec
CONSTANTS
  Exchanges = 1
  MaxRx = 3
  CAckMin <- McMin
  CAckMax <- McMax
  CMaxRetransmit <- McRetransmit
  RespTimeout <- McResp
INVARIANTS Genuine Acked ResetMeansReset Bounded NonOnce TimeoutMeansSilence
PROPERTIES Replies Ends
CHECK_DEADLOCK FALSE
