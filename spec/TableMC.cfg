SPECIFICATION Spec
CONSTANTS
  Apply <- TableApply
  St0 <- TableNull
  MaxDepth = 3
  EmitOn = FALSE
  MaxR = 2
  MaxC = 2
  MaxN = 2
  MaxSize = 5
VIEW View
INVARIANTS InvRect InvHeld
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
