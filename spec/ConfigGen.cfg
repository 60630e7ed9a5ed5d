SPECIFICATION Spec
CONSTANTS
  Defaults <- GenDefaults
  Optional <- GenOptional
  MaxOps = 14
  MaxStamp = 99
  Emit = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
