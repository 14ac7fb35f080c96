SPECIFICATION TraceSpec
CONSTANTS
  Apply <- AddressApply
  St0 <- AddressNull
VIEW TraceView
CHECK_DEADLOCK FALSE
