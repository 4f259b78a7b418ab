SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  N = 4
  Three = FALSE
INVARIANTS Count StartKept OpenEndKept Emit
PROPERTIES StraightFirst Terminates
CHECK_DEADLOCK FALSE
