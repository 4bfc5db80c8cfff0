SPECIFICATION SSpec
CONSTANTS
  Managers = {m1, m2}
  Pairs <- Kinds
  MaxCalls = 2
  Reset = "frame"
  Coefficients = "signal"
  Shared = TRUE
INVARIANTS HistoryFree FramesLocal
CHECK_DEADLOCK FALSE
