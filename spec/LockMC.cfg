SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  MaxDepth = 3
  Emit = FALSE
INVARIANT MutualExclusion
VIEW View
CHECK_DEADLOCK FALSE
