SPECIFICATION Spec
CONSTANTS
  MaxOps = 60
  Emit = FALSE
INVARIANTS Clock FourOK Table
CHECK_DEADLOCK FALSE
