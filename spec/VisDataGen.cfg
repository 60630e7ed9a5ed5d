SPECIFICATION Spec
CONSTANTS
  MaxOps = 26
  MaxObj = 9
  MaxBl = 7
  Emit = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
