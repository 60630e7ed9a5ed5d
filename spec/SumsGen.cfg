SPECIFICATION Spec
CONSTANTS
  MaxOps = 50
  Emit = TRUE
INVARIANTS EmitDone
PROPERTIES Alone
CHECK_DEADLOCK FALSE
