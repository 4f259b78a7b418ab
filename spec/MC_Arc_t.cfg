SPECIFICATION Spec
CONSTANTS
  F = 16
  Bs = {1,2,3,4}
  Ms = {2,3,4,5,6,7,8,10,12}
  MaxX = 3
INVARIANTS Ends Progress Close NoRounding Looser Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
