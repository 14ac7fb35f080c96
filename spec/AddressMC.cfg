SPECIFICATION Spec
CONSTANTS
  Apply <- AddressApply
  St0 <- AddressNull
  MaxDepth = 2
  EmitOn = FALSE
  Alphabet = {"A", "b", "Z", "0", "1", "9", "-", " ", "$", "."}
  MaxLen = 3
  Ops = {"parse", "get", "set", "row", "column", "row_info", "column_info", "span"}
  Check = 800
VIEW View
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
