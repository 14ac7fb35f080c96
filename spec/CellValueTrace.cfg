SPECIFICATION TraceSpec
CONSTANTS
  Apply <- CellValueApply
  St0 <- CellValueNull
VIEW TraceView
CHECK_DEADLOCK FALSE
