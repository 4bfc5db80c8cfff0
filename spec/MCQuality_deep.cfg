SPECIFICATION Spec
CONSTANTS
  FROM <- Low
  TO = 10000000
  STEP = 20000
  MODES = {"scaled", "unscaled", "audio"}
  Legacy = {}
INVARIANTS InRange Monotone Dissimilar AsDefined Top ScalingRaises
PROPERTY Everything
CHECK_DEADLOCK FALSE
