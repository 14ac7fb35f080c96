SPECIFICATION TraceSpec
CONSTANTS
  Apply <- NodeOrgApply
  St0 <- NodeOrgNull
VIEW TraceView
CHECK_DEADLOCK FALSE
