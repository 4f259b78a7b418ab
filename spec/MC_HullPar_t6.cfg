SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  MaxLen = 6
  ChunkSizes = {2, 3}
  Inputs <- AllInputs
INVARIANTS ScheduleIndependent PartialsAnchored Emit
CHECK_DEADLOCK FALSE
