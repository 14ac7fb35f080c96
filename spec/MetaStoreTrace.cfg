SPECIFICATION TraceSpec
CONSTANTS
  Apply <- MetaStoreApply
  St0 <- MetaStoreNull
VIEW TraceView
CHECK_DEADLOCK FALSE
