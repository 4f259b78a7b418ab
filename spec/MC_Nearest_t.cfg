SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 3
  Three = FALSE
INVARIANTS Exact Closest Zero Symmetric Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
