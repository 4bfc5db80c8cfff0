SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Writes = "end"
  OnFail = "stop"
  LogMode = "truncate"
  Unwritable = "unwritten"
INVARIANTS AsMeant AsAlone FilesExact NoTraceOfFailure
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
