SPECIFICATION Spec
CONSTANTS
  W = 2
  Least = 2
INVARIANTS RoundTrip SameWayBack LandsInside CenterToCenter Emit
CHECK_DEADLOCK FALSE
