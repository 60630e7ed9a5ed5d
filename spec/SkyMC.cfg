SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Emit = FALSE
INVARIANT Hours Named Ranged
CHECK_DEADLOCK FALSE
