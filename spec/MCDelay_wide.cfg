SPECIFICATION Spec
CONSTANTS
  VALUES <- Wide
  LENS = {1, 2, 3}
  Legacy = {}
INVARIANTS NoPanic CorrelationIsLinear LagIsBest PureDelay Restores AsDefined Settled CutAsDefined CutConsistent
PROPERTY Ends
CHECK_DEADLOCK FALSE
