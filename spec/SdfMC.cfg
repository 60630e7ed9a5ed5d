SPECIFICATION Spec
CONSTANTS
  MaxObs = 2
  MaxOps = 3
  Emit = FALSE
INVARIANT ReadBack Alone Order
CHECK_DEADLOCK FALSE
