SPECIFICATION TraceSpec
CONSTANTS
  Apply <- NodeListApply
  St0 <- NodeListNull
VIEW TraceView
CHECK_DEADLOCK FALSE
