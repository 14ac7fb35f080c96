SPECIFICATION Spec
CONSTANTS
  Apply <- DocStoreApply
  St0 <- DocStoreNull
  MaxDepth = 4
  EmitOn = FALSE
  Handles = {"1", "2"}
  Targets = {"a", "n"}
  Dirs = {"one", "two", "three", "four", "five", "six"}
  Acts = {"new", "open", "template", "edit", "editmore", "backup", "listen", "save", "saveas", "savestream", "tobytes", "unlink", "put"}
VIEW View
INVARIANTS Inv
PROPERTIES Discipline Faithful
CHECK_DEADLOCK FALSE
