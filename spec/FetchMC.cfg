SPECIFICATION Spec
CONSTANTS
  MaxOps = 16
  Emit = FALSE
  Alone = TRUE
INVARIANTS Whole Marked
CHECK_DEADLOCK FALSE
