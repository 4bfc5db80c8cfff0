SPECIFICATION SSpec
CONSTANTS
  Managers = {m1, m2}
  Pairs <- Kinds
  MaxCalls = 3
  Reset = "frame"
  Coefficients = "signal"
  Shared = FALSE
INVARIANTS HistoryFree FramesLocal
CHECK_DEADLOCK FALSE
