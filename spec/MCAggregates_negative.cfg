SPECIFICATION Spec
CONSTANTS
  VALUES = {0, 1, 2}
  MAXFRAMES = 3
  MAXPATCHES = 2
  Legacy = {"negative"}
INVARIANTS NotNegative PooledIsOverall CountsEverything Flat Between
PROPERTY Ends
CHECK_DEADLOCK FALSE
