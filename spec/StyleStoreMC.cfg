SPECIFICATION Spec
CONSTANTS
  Apply <- StyleStoreApply
  St0 <- StyleStoreNull
  MaxDepth = 4
  EmitOn = FALSE
  Kinds = {"odt", "flat"}
  Names = {"A", "B"}
  Ids = {"x", "y"}
  Cs = {"common", "auto", "cauto"}
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps Local
CHECK_DEADLOCK FALSE
