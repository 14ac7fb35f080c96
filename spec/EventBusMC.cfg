SPECIFICATION Spec
CONSTANTS
  Apply <- EventBusApply
  St0 <- EventBusNull
  MaxDepth = 5
  EmitOn = FALSE
  Setups = {"plain", "roots", "selfun", "other", "adds", "kills", "booms"}
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
