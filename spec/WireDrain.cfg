SPECIFICATION Spec
CONSTANTS
  MaxSlots = 4
  MaxOps = 14
  Emit = FALSE
  Formats = {"drx", "drx8", "tbx", "cor", "vdif", "drspec"}
  Drain = TRUE
INVARIANT Aligned DrainComplete InOrder Ends
CHECK_DEADLOCK FALSE
