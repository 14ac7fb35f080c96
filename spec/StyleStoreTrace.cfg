SPECIFICATION TraceSpec
CONSTANTS
  Apply <- StyleStoreApply
  St0 <- StyleStoreNull
VIEW TraceView
CHECK_DEADLOCK FALSE
