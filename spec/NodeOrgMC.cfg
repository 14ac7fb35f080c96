SPECIFICATION Spec
CONSTANTS
  Apply <- NodeOrgApply
  St0 <- NodeOrgNull
  MaxDepth = 2
  EmitOn = FALSE
  Alphabet = {"a", "b", "c", "g", "x", "y", "z"}
  MaxLen = 3
  MaxKids = 6
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
