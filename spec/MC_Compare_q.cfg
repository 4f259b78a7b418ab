SPECIFICATION Spec
CONSTANTS
  W = 2
  Tolerances = {0,1}
INVARIANTS Exact Undirected Reflexive Tolerant Finer Directed Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
