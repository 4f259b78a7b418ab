SPECIFICATION Spec
CONSTANTS
  N = 6
  MaxE = 6
  Emit = TRUE
INVARIANTS TypeOK NoStuck DividesE Once EmitCase
CHECK_DEADLOCK FALSE
