SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  MaxObj = 2
  MaxBl = 2
  Emit = FALSE
INVARIANT Shapes RoundTrip SubsetsAgree
VIEW View
CHECK_DEADLOCK FALSE
