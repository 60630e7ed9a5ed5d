SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Emit = FALSE
INVARIANT Fresh Contained Cleaned
CHECK_DEADLOCK FALSE
