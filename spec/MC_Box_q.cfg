SPECIFICATION Spec
CONSTANTS
  W = 1
  MaxOps = 3
  Emit = TRUE
INVARIANTS Empty Contains Least Closed EmitCase
CHECK_DEADLOCK FALSE
