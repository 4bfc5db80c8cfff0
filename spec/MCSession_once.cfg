SPECIFICATION SSpec
CONSTANTS
  Managers = {m1, m2}
  Pairs <- Kinds
  MaxCalls = 2
  Reset = "frame"
  Coefficients = "once"
  Shared = FALSE
INVARIANTS HistoryFree FramesLocal
CHECK_DEADLOCK FALSE
