SPECIFICATION Spec
CONSTANTS
  FROM <- Low
  TO = 10000000
  STEP = 500000
  MODES = {"audio"}
  Legacy = {}
INVARIANTS InRange Monotone Dissimilar AsDefined Top ScalingRaises
PROPERTY Everything
CHECK_DEADLOCK FALSE
