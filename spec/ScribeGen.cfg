SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Emit = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
