SPECIFICATION Spec
CONSTANTS
  W = 2
  N = 3
INVARIANTS ThereAndBack PointsToo Found Agrees Nowhere Emit EmitToo
CHECK_DEADLOCK FALSE
