SPECIFICATION Spec
CONSTANTS
  RATES = {100, 138}
  LENGTHS = {8, 12, 30, 31}
  CONTENT <- ContentsFew
  Legacy = {"hop"}
INVARIANTS Count Refused Spaced Inside Local Silence AlmostAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
