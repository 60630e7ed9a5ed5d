SPECIFICATION Spec
CONSTANTS
  NIds = 2
  NTimes = 3
  NSegs = 2
  MaxPuts = 5
  MaxOps = 7
  Emit = FALSE
INVARIANT Safety
PROPERTIES Monotone MarkUp
VIEW View
CHECK_DEADLOCK FALSE
