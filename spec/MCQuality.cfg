SPECIFICATION Spec
CONSTANTS
  FROM <- Low
  TO = 10000000
  STEP = 100000
  MODES = {"scaled", "unscaled"}
  Legacy = {}
INVARIANTS InRange Monotone Dissimilar AsDefined Top ScalingRaises
PROPERTY Everything
CHECK_DEADLOCK FALSE
