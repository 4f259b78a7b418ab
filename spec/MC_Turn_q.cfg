SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
INVARIANTS Cyclic Antisymmetric Straight Invariant Additive Emit
CHECK_DEADLOCK FALSE
