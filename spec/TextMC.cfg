SPECIFICATION Spec
CONSTANTS
  Apply <- TextApply
  St0 <- TextNull
  MaxDepth = 2
  EmitOn = FALSE
  Kinds = {"Paragraph", "Heading", "Span", "Hyperlink", "ListItem", "ListHeader"}
  Chars = {" ", "a", "\t", "\n"}
  CreateLen = 2
  AppendLen = 2
  EncLen = 5
  Ops = {"encode", "append", "insert"}
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
