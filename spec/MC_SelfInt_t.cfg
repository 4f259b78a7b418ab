SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 2
  N = 5
INVARIANTS Exact SameAsSweep Reversible Emit
PROPERTIES Monotone Terminates
CHECK_DEADLOCK FALSE
