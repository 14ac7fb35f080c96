SPECIFICATION Spec
CONSTANTS
  Apply <- WorkbookApply
  St0 <- WorkbookNull
  MaxDepth = 4
  EmitOn = FALSE
  Handles = {"1", "2"}
  Starts = {"ods", "both"}
  Acts = {"new", "load", "store", "drop", "sheet", "cell", "grid", "text", "meta", "vars"}
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps Independent Stored
CHECK_DEADLOCK FALSE
