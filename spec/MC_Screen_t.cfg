SPECIFICATION Spec
CONSTANTS
  Codes = {1000001, 1000002, 1000003}
  Table = 4
  Most = 4
INVARIANTS NoHullOfBad NoErrorForGood LookedAtAll Emit
PROPERTIES Decides
CHECK_DEADLOCK FALSE
