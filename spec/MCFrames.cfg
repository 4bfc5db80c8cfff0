SPECIFICATION Spec
CONSTANTS
  RATES = {100, 112, 125, 138}
  LENGTHS = {0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 17, 20, 25, 30, 31}
  CONTENT <- ContentsFew
  Legacy = {}
INVARIANTS Count Refused Spaced Inside Local Silence AlmostAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
