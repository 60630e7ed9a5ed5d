SPECIFICATION Spec
CONSTANTS
  MaxOps = 20
  NAnt = 4
  MaxBl = 8
  NTime = 4
  MaxData = 99
  Emit = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
