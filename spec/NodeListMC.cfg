SPECIFICATION Spec
CONSTANTS
  Apply <- NodeListApply
  St0 <- NodeListNull
  MaxDepth = 4
  EmitOn = FALSE
  Setups = {"three"}
  Ops = {"append", "insert", "set", "delete", "get", "index", "remove", "insert_before", "replace", "clear", "root", "find"}
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
