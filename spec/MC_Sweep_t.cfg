SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 2
  N = 3
INVARIANTS Correct OnlyAhead ActiveLines SoundSoFar Emit
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
