SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Emit = TRUE
  Span <- GenSpan
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
