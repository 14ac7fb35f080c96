SPECIFICATION TraceSpec
CONSTANTS
  Apply <- DocStoreApply
  St0 <- DocStoreNull
VIEW TraceView
CHECK_DEADLOCK FALSE
