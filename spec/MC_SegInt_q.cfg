SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 2
INVARIANTS Exact Meaning Symmetric Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
