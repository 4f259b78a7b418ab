SPECIFICATION Spec
CONSTANTS
  N = 7
  Extra = 2
INVARIANTS InBounds Windows Chunks Consistent Emit
PROPERTY Fused
CHECK_DEADLOCK FALSE
