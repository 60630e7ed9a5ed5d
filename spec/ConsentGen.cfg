SPECIFICATION Spec
CONSTANTS
  MaxOps = 24
  Emit = TRUE
  Calls = 2
  Whole = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
