SPECIFICATION Spec
CONSTANTS
  SHAPES <- DeepShapes
  VALUES = {0, 450}
  MORE = {3}
  MORECELLS = 2
  SCALE = 10
  Legacy = {}
INVARIANTS BorderReplicates SumsAreLocal Index Locality OnlyItself
PROPERTY Ends
CHECK_DEADLOCK FALSE
