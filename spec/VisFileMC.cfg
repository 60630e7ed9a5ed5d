SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  NAnt = 2
  MaxBl = 2
  NTime = 2
  MaxData = 2
  Emit = FALSE
INVARIANT Faithful InOrder OnlyComplete
VIEW View
CHECK_DEADLOCK FALSE
