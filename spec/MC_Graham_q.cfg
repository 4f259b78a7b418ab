SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  MaxLen = 5
  Inputs <- AllInputs
INVARIANTS ClosedConvexHull StackIsConvex VerticesAreInputs HullIsExtremePoints Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
