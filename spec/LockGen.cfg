SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxDepth = 2
  Emit = TRUE
INVARIANT MutualExclusion EmitDone
CHECK_DEADLOCK FALSE
