SPECIFICATION Spec
CONSTANTS
  Apply <- MetaStoreApply
  St0 <- MetaStoreNull
  MaxDepth = 3
  EmitOn = FALSE
  Starts = {"new", "meta", "flat"}
  Ops = {"tags", "kw", "user", "stat"}
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps Independent
CHECK_DEADLOCK FALSE
