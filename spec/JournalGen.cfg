SPECIFICATION Spec
CONSTANTS
  MaxOps = 40
  Emit = TRUE
INVARIANTS EmitDone
CHECK_DEADLOCK FALSE
