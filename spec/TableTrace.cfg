SPECIFICATION TraceSpec
CONSTANTS
  Apply <- TableApply
  St0 <- TableNull
VIEW TraceView
CHECK_DEADLOCK FALSE
