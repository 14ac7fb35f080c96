SPECIFICATION Spec
CONSTANTS
  Apply <- SaveFSApply
  St0 <- SaveFSNull
  MaxDepth = 5
  EmitOn = FALSE
  Kinds = {"pkg", "bytes", "flat"}
  Srcs = {"self", "other", "new", "away"}
VIEW View
INVARIANTS Inv
PROPERTIES Recovers
CHECK_DEADLOCK FALSE
