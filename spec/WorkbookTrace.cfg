SPECIFICATION TraceSpec
CONSTANTS
  Apply <- WorkbookApply
  St0 <- WorkbookNull
VIEW TraceView
CHECK_DEADLOCK FALSE
