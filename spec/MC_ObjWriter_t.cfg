SPECIFICATION Spec
CONSTANTS
  M = 4
  N = 3
  Room = 4
INVARIANTS ReadBack EachOnce NoStrangers BackReferences NothingLost OnlyIfFull Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
