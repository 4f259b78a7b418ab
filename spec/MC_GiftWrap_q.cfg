SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  MaxLen = 5
  Inputs <- AllInputs
INVARIANTS ClosedConvexHull  VerticesAreInputs Bounded
PROPERTY Terminates
CHECK_DEADLOCK FALSE
