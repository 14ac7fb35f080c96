SPECIFICATION Spec
CONSTANTS
  Apply <- NamesApply
  St0 <- NamesNull
  MaxDepth = 4
  EmitOn = FALSE
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
