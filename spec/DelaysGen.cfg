SPECIFICATION Spec
CONSTANTS
  MaxOps = 30
  Emit = "ops"
  Ns = {4}
  MaxL = 4
INVARIANTS EmitDone
CHECK_DEADLOCK FALSE
