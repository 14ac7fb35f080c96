SPECIFICATION TraceSpec
CONSTANTS
  Apply <- DurationApply
  St0 <- DurationNull
VIEW TraceView
CHECK_DEADLOCK FALSE
