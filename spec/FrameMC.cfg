SPECIFICATION Spec
CONSTANTS
  Apply <- FrameApply
  St0 <- FrameNull
  MaxDepth = 3
  EmitOn = FALSE
  Kinds = {"pkg", "flat"}
  Tags = {"meta", "scripts", "font-face-decls", "styles", "automatic-styles", "master-styles", "body"}
VIEW View
INVARIANTS Inv
PROPERTIES RejectedKeeps Local
CHECK_DEADLOCK FALSE
