SPECIFICATION TraceSpec
CONSTANTS
  Apply <- BodyOrderApply
  St0 <- BodyOrderNull
VIEW TraceView
CHECK_DEADLOCK FALSE
