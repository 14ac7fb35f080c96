SPECIFICATION Spec
CONSTANTS
  Apply <- PageListApply
  St0 <- PageListNull
  MaxDepth = 4
  EmitOn = FALSE
  Kinds = {"ods"}
  MaxPages = 3
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
