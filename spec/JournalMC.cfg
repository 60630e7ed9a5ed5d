SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Emit = FALSE
INVARIANTS Ordered Covered
PROPERTIES Grows
CHECK_DEADLOCK FALSE
