SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  MaxN = 8
INVARIANTS Exact PartHoldsPoint Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
