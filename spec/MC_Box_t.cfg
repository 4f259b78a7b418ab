SPECIFICATION Spec
CONSTANTS
  W = 1
  MaxOps = 4
  Emit = FALSE
INVARIANTS Empty Contains Least Closed
CHECK_DEADLOCK FALSE
