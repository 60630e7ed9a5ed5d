SPECIFICATION Spec
CONSTANTS
  MaxLen = 0
  MaxOps = 40
  Emit = "ops"
  Letters = 1
INVARIANTS EmitDone
CHECK_DEADLOCK FALSE
