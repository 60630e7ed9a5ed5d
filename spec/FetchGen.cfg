SPECIFICATION Spec
CONSTANTS
  MaxOps = 30
  Emit = TRUE
  Alone = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
