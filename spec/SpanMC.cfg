SPECIFICATION Spec
CONSTANTS
  Apply <- SpanApply
  St0 <- SpanNull
  MaxDepth = 3
  EmitOn = FALSE
  NRows = 3
  NCols = 3
  Structure = TRUE
VIEW View
INVARIANTS InvPartition
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
