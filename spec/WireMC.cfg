SPECIFICATION Spec
CONSTANTS
  MaxSlots = 3
  MaxOps = 4
  Emit = FALSE
  Formats = {"drx", "drx8", "tbx", "cor", "vdif", "drspec"}
  Drain = FALSE
INVARIANT Aligned
VIEW View
CHECK_DEADLOCK FALSE
