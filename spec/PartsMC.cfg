SPECIFICATION Spec
CONSTANTS
  Apply <- PartsApply
  St0 <- PartsNull
  MaxDepth = 3
  EmitOn = FALSE
  Is = {1, 2, 3}
  Cs = {"y", "bin"}
  Ms = {"", "text/xml"}
  Starts = {"new", "open"}
VIEW View
INVARIANTS Inv
CHECK_DEADLOCK FALSE
