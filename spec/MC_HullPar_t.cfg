SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  MaxLen = 5
  ChunkSizes = {1, 2, 3}
  Inputs <- AllInputs
INVARIANTS ScheduleIndependent PartialsAnchored Emit
CHECK_DEADLOCK FALSE
