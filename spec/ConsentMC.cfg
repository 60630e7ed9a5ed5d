SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Emit = FALSE
  Calls = 2
  Whole = TRUE
INVARIANTS Conserved Private
CHECK_DEADLOCK FALSE
