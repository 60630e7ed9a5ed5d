SPECIFICATION Spec
CONSTANTS
  MaxSlots = 3
  MaxOps = 5
  Emit = TRUE
  Formats = {"drx", "drx8", "tbx", "cor", "vdif", "drspec"}
  Drain = FALSE
INVARIANT Aligned EmitDone
CHECK_DEADLOCK FALSE
