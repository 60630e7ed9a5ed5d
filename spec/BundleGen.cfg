SPECIFICATION Spec
CONSTANTS
  MaxOps = 18
  Emit = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
