SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  N = 4
  Limits = {0,2,3,4,6}
  Space <- Flatland
  Dist <- SegDist2
INVARIANTS EndsKept InOrder WithinLimit Covered Agrees Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
