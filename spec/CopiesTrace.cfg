SPECIFICATION TraceSpec
CONSTANTS
  Apply <- CopiesApply
  St0 <- CopiesNull
VIEW TraceView
CHECK_DEADLOCK FALSE
