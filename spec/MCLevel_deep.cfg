SPECIFICATION Spec
CONSTANTS
  VALUES <- Signs
  LENS = {1, 2, 3, 4}
  GAINS = {2, 5}
  Legacy = {}
INVARIANTS Finite SameLag LevelMatches GainVanishes SilenceStays
PROPERTY Ends
CHECK_DEADLOCK FALSE
