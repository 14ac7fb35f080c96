SPECIFICATION Spec
CONSTANTS
  Apply <- CellValueApply
  St0 <- CellValueNull
  MaxDepth = 3
  EmitOn = FALSE
VIEW View
INVARIANTS InvType
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
