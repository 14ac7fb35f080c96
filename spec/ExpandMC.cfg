SPECIFICATION Spec
CONSTANTS
  Apply <- ExpandApply
  St0 <- ExpandNull
  MaxDepth = 2
  EmitOn = FALSE
  Reps = {1, 2, 3}
  Lays = {"plain"}
VIEW View
INVARIANTS Inv
CHECK_DEADLOCK FALSE
