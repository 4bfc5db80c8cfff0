SPECIFICATION Spec
CONSTANTS
  VALUES <- Some
  SHAPES <- Shapes
  Legacy = {}
INVARIANTS AsDefined Symmetric CommonMinimum Differences Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
