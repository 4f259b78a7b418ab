SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxE = 6
  Emit = FALSE
INVARIANTS TypeOK NoStuck DividesE Once
PROPERTY Terminates
CHECK_DEADLOCK FALSE
