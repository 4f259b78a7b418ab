SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  N = 3
INVARIANTS IsHit NearestSoFar NothingNearer Reversible Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
