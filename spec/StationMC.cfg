SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Emit = FALSE
INVARIANT OrderFree LastWins WellWired
PROPERTY Apart
CHECK_DEADLOCK FALSE
