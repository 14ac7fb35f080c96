SPECIFICATION TraceSpec
CONSTANTS
  Apply <- FrameApply
  St0 <- FrameNull
VIEW TraceView
CHECK_DEADLOCK FALSE
