SPECIFICATION Spec
CONSTANTS
  W = 3
  Tolerances = {0,1,2}
INVARIANTS Exact Undirected Reflexive Tolerant Finer Directed Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
