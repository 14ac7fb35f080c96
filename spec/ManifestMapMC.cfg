SPECIFICATION Spec
CONSTANTS
  Apply <- ManifestMapApply
  St0 <- ManifestMapNull
  MaxDepth = 3
  EmitOn = FALSE
  Ps = {"/", "content.xml", "Pictures/a", "Pictures/a.png"}
  Ms = {"", "text/xml"}
  Vs = {"", "1.3"}
VIEW View
INVARIANTS Inv
CHECK_DEADLOCK FALSE
