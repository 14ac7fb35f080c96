SPECIFICATION TraceSpec
CONSTANTS
  Apply <- PackageApply
  St0 <- PackageNull
VIEW TraceView
CHECK_DEADLOCK FALSE
