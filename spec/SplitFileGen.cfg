SPECIFICATION Spec
CONSTANTS
  MaxPart = 3
  NParts = 3
  MaxOps = 2
  Emit = TRUE
INVARIANT InRange EmitDone
CHECK_DEADLOCK FALSE
