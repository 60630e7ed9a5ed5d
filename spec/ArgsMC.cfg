SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxOps = 0
  Emit = "none"
  Letters = 1
INVARIANTS Blind Firm Apart Again
CHECK_DEADLOCK FALSE
