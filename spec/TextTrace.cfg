SPECIFICATION TraceSpec
CONSTANTS
  Apply <- TextApply
  St0 <- TextNull
VIEW TraceView
CHECK_DEADLOCK FALSE
