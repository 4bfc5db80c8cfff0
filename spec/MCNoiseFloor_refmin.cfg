SPECIFICATION Spec
CONSTANTS
  VALUES <- Few
  SHAPES <- Small
  Legacy = {"refmin"}
INVARIANTS AsDefined Symmetric CommonMinimum Differences Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
