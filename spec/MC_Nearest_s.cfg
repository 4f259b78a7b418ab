SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  Three = TRUE
INVARIANTS Exact Closest Zero Symmetric Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
