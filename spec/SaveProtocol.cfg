SPECIFICATION Spec
CONSTANTS
  Order = "tmp"
INVARIANTS AlwaysSafe Refines
PROPERTIES Ends
CHECK_DEADLOCK FALSE
