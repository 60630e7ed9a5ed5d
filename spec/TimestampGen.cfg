SPECIFICATION Spec
CONSTANTS
  FS = 3
  DAY = 3
  MaxOps = 3
  Emit = TRUE
INVARIANT TypeOK EmitDone
CHECK_DEADLOCK FALSE
