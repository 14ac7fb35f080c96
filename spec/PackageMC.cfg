SPECIFICATION Spec
CONSTANTS
  Apply <- PackageApply
  St0 <- PackageNull
  MaxDepth = 3
  EmitOn = FALSE
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps Saved
CHECK_DEADLOCK FALSE
