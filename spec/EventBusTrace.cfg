SPECIFICATION TraceSpec
CONSTANTS
  Apply <- EventBusApply
  St0 <- EventBusNull
VIEW TraceView
CHECK_DEADLOCK FALSE
