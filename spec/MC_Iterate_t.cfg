SPECIFICATION Spec
CONSTANTS
  N = 14
  Extra = 3
INVARIANTS InBounds Windows Chunks Consistent Emit
PROPERTY Fused
CHECK_DEADLOCK FALSE
