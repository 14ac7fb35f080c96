SPECIFICATION TraceSpec
CONSTANTS
  Apply <- SpanApply
  St0 <- SpanNull
VIEW TraceView
CHECK_DEADLOCK FALSE
