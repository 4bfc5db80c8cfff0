SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Writes = "end"
  OnFail = "stop"
  LogMode = "append"
  Unwritable = "unwritten"
INVARIANTS AsMeant AsAlone FilesExact NoTraceOfFailure
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
