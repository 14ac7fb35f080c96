SPECIFICATION Spec
CONSTANTS
  Apply <- AttrsApply
  St0 <- AttrsNull
  MaxDepth = 3
  EmitOn = FALSE
  Kinds = {"Span", "Paragraph", "Heading", "NumberedParagraph", "Hyperlink", "List", "ListItem", "Section", "Table", "TableRow", "TableColumn", "Cell", "DrawingPage"}
  Mode = "attr"
VIEW AView
INVARIANTS Inv
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
