SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 2
  N = 5
  Limits = {0,3,4}
  Space <- Flatland
  Dist <- SegDist2
INVARIANTS EndsKept InOrder WithinLimit Covered Agrees Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
