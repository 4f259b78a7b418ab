SPECIFICATION Spec
CONSTANTS
  M = 3
  N = 2
  Room = 3
INVARIANTS ReadBack EachOnce NoStrangers BackReferences NothingLost OnlyIfFull Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
