SPECIFICATION TraceSpec
CONSTANTS
  Apply <- AttrsApply
  St0 <- AttrsNull
VIEW TraceView
CHECK_DEADLOCK FALSE
