SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxE = 10
  Emit = TRUE
INVARIANTS TypeOK NoStuck DividesE Once EmitCase
CHECK_DEADLOCK FALSE
