SPECIFICATION TraceSpec
CONSTANTS
  Apply <- ExpandApply
  St0 <- ExpandNull
VIEW TraceView
CHECK_DEADLOCK FALSE
