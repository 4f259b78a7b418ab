SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 2
  N = 3
  Lengths = {0,1,2,3,4,5,6,8,9,12}
INVARIANTS Complete Ordered Fewest Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
