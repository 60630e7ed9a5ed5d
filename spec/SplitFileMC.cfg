SPECIFICATION Spec
CONSTANTS
  MaxPart = 3
  NParts = 3
  MaxOps = 6
  Emit = FALSE
INVARIANT InRange StepFree
VIEW View
CHECK_DEADLOCK FALSE
