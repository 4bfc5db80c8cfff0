SPECIFICATION Spec
CONSTANTS
  NP = 3
  FDEG = {1, 2, 3}
  GAPS = {1, 2}
  PLEN = 2
  RADII = {0, 1, 2}
  SIMS = {0, 3}
  Legacy = {"zeroinit"}
INVARIANTS SelfMatch LegalWhenDone OptimalWhenDone OracleOk InBounds WindowsNonEmpty DropOk
CHECK_DEADLOCK FALSE
