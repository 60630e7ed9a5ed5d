SPECIFICATION Spec
CONSTANTS
  MaxObs = 4
  MaxOps = 16
  Emit = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
