SPECIFICATION Spec
CONSTANTS
  NIds = 2
  NTimes = 3
  NSegs = 2
  MaxPuts = 9
  MaxOps = 4
  Emit = TRUE
INVARIANT Safety EmitDone
CHECK_DEADLOCK FALSE
