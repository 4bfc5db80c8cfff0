SPECIFICATION Spec
CONSTANTS
  VALUES <- Signs
  LENS = {1, 2, 3, 4, 5}
  Legacy = {}
INVARIANTS NoPanic CorrelationIsLinear LagIsBest PureDelay Restores AsDefined Settled CutAsDefined CutConsistent
PROPERTY Ends
CHECK_DEADLOCK FALSE
