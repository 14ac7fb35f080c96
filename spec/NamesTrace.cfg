SPECIFICATION TraceSpec
CONSTANTS
  Apply <- NamesApply
  St0 <- NamesNull
VIEW TraceView
CHECK_DEADLOCK FALSE
