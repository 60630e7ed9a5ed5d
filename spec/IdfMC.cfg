SPECIFICATION Spec
CONSTANTS
  MaxObs = 2
  MaxOps = 3
  Emit = FALSE
INVARIANT ReadBack Alone Fan
CHECK_DEADLOCK FALSE
