SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  N = 3
INVARIANTS Correct OnlyAhead ActiveLines SoundSoFar Emit
PROPERTIES Monotone Terminates
CHECK_DEADLOCK FALSE
