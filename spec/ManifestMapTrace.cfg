SPECIFICATION TraceSpec
CONSTANTS
  Apply <- ManifestMapApply
  St0 <- ManifestMapNull
VIEW TraceView
CHECK_DEADLOCK FALSE
