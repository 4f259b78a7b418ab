SPECIFICATION Spec
CONSTANTS
  W = 1
  Least = 2
INVARIANTS RoundTrip SameWayBack LandsInside CenterToCenter Emit
CHECK_DEADLOCK FALSE
