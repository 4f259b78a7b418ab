SPECIFICATION Spec
CONSTANTS
  MaxN = 130
  Dens = {1, 2, 4, 8, 16}
INVARIANTS ReadsBack Invariant Shortest Defined Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
