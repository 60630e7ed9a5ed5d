SPECIFICATION Spec
CONSTANTS
  MaxOps = 14
  Emit = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
