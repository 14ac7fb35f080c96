SPECIFICATION TraceSpec
CONSTANTS
  Apply <- SaveFSApply
  St0 <- SaveFSNull
VIEW TraceView
CHECK_DEADLOCK FALSE
