SPECIFICATION Spec
CONSTANTS
  NSlots = 7
  Stands = {2}
  Fills = {1, 2, 3}
  MaxOps = 4
  Emit = FALSE
INVARIANT Tiles NoRepeat NothingLost KeepsFrames
VIEW View
CHECK_DEADLOCK FALSE
