SPECIFICATION Spec
CONSTANTS
  MaxOps = 9
  Emit = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
