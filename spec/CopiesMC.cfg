SPECIFICATION Spec
CONSTANTS
  Apply <- CopiesApply
  St0 <- CopiesNull
  MaxDepth = 4
  EmitOn = FALSE
  MaxTabs = 3
VIEW View
PROPERTIES RejectedKeeps Independent
CHECK_DEADLOCK FALSE
