SPECIFICATION Spec
CONSTANTS
  Codes = {1000001, 1000003}
  Table = 4
  Most = 3
INVARIANTS NoHullOfBad NoErrorForGood LookedAtAll Emit
PROPERTIES Decides
CHECK_DEADLOCK FALSE
