SPECIFICATION Spec
CONSTANTS
  Codes = {0, 1, 1000001, 1000002, 1000003}
  Calls = 3
  Most = 1
INVARIANTS KeptIsFed RefusedIsBad OnlyUsable Emit
PROPERTIES RefusedForGood Grows
CHECK_DEADLOCK FALSE
