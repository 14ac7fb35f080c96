SPECIFICATION Spec
CONSTANTS
  Apply <- BodyOrderApply
  St0 <- BodyOrderNull
  MaxDepth = 3
  EmitOn = FALSE
  Kinds = {"odt"}
  Preludes = {"none", "forms", "seq", "vars", "decls", "mixed", "full"}
  Epilogues = {"none", "one", "two", "twice", "wrong"}
  MaxNew = 3
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps Kept
CHECK_DEADLOCK FALSE
