SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 2
  N = 6
  Convex = TRUE
INVARIANTS AllOfThem TwoAreEnough TwoOfThem InAndOut Unmet Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
