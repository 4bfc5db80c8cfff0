SPECIFICATION Spec
CONSTANTS
  VALUES <- Few
  SHAPES <- Small
  Legacy = {}
INVARIANTS AsDefined Symmetric CommonMinimum Differences Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
