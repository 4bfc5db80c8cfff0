SPECIFICATION Spec
CONSTANTS
  MaxRuns = 3
  Writes = "end"
  OnFail = "stop"
  LogMode = "append"
  Unwritable = "unwritten"
INVARIANTS AsMeant AsAlone FilesExact NoTraceOfFailure
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
