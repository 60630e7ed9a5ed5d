SPECIFICATION Spec
CONSTANTS
  Names = {1, 2, 3, 4}
  Sizes = {0, 1, 2, 3}
  Limits = {0, 2, 4}
  MaxOps = 12
  Emit = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
