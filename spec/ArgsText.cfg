SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxOps = 0
  Emit = "text"
  Letters = 1
INVARIANTS EmitText
CHECK_DEADLOCK FALSE
