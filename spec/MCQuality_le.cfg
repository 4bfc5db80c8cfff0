SPECIFICATION Spec
CONSTANTS
  FROM <- Low
  TO = 10000000
  STEP = 500000
  MODES = {"scaled", "unscaled"}
  Legacy = {"le"}
INVARIANTS InRange Monotone Dissimilar AsDefined Top ScalingRaises
PROPERTY Everything
CHECK_DEADLOCK FALSE
