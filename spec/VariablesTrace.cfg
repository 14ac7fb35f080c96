SPECIFICATION TraceSpec
CONSTANTS
  Apply <- VariablesApply
  St0 <- VariablesNull
VIEW TraceView
CHECK_DEADLOCK FALSE
