SPECIFICATION Spec
CONSTANTS
  MaxN = 2100
  Dens = {1, 2, 4, 8, 16, 32, 64}
INVARIANTS ReadsBack Invariant Shortest Defined Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
