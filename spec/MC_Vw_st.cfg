SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  N = 4
  Three = TRUE
INVARIANTS Count StartKept OpenEndKept Emit
PROPERTIES StraightFirst Terminates
CHECK_DEADLOCK FALSE
