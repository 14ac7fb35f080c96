SPECIFICATION TraceSpec
CONSTANTS
  Apply <- PageListApply
  St0 <- PageListNull
VIEW TraceView
CHECK_DEADLOCK FALSE
