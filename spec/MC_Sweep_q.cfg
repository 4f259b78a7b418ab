SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 2
  N = 2
INVARIANTS Correct OnlyAhead ActiveLines SoundSoFar Emit
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
