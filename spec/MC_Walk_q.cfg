SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  N = 3
  Lengths = {0,1,3,4,6,9}
INVARIANTS Complete Ordered Fewest Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
