SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 2
  Three = FALSE
INVARIANTS Exact Closest Zero Symmetric Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
