SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 2
INVARIANTS Exact Meaning Symmetric Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
