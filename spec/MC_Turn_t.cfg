SPECIFICATION Spec
CONSTANTS
  W = 5
  H = 4
INVARIANTS Cyclic Antisymmetric Straight Invariant Additive Emit
CHECK_DEADLOCK FALSE
