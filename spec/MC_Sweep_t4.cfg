SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  N = 4
INVARIANTS Correct OnlyAhead ActiveLines SoundSoFar Emit
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
