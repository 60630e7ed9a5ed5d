SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Emit = FALSE
  Span <- MCSpan
INVARIANT Faithful SameInstant TaiMonotone
CHECK_DEADLOCK FALSE
