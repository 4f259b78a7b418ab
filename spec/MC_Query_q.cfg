SPECIFICATION Spec
CONSTANTS
  W = 1
  H = 2
  N = 3
  Convex = FALSE
INVARIANTS AllOfThem TwoAreEnough TwoOfThem InAndOut Unmet Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
