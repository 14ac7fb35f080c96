SPECIFICATION Spec
CONSTANTS
  Apply <- VariablesApply
  St0 <- VariablesNull
  MaxDepth = 4
  EmitOn = FALSE
  Kinds = {"odt"}
  Docs = {"one", "both", "two"}
VIEW View
PROPERTIES RejectedKeeps Assigned
CHECK_DEADLOCK FALSE
