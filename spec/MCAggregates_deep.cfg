SPECIFICATION Spec
CONSTANTS
  VALUES = {0, 1, 3}
  MAXFRAMES = 3
  MAXPATCHES = 3
  Legacy = {}
INVARIANTS NotNegative PooledIsOverall CountsEverything Flat Between
PROPERTY Ends
CHECK_DEADLOCK FALSE
