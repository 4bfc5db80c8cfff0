SPECIFICATION Spec
CONSTANTS
  VALUES <- Signs
  LENS = {1, 2, 3}
  GAINS = {3}
  Legacy = {"gate"}
INVARIANTS Finite SameLag LevelMatches GainVanishes SilenceStays
PROPERTY Ends
CHECK_DEADLOCK FALSE
