SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  N = 5
  Three = FALSE
INVARIANTS Count StartKept OpenEndKept Emit
PROPERTIES StraightFirst Terminates
CHECK_DEADLOCK FALSE
