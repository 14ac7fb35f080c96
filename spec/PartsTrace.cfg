SPECIFICATION TraceSpec
CONSTANTS
  Apply <- PartsApply
  St0 <- PartsNull
VIEW TraceView
CHECK_DEADLOCK FALSE
