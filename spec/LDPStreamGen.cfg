SPECIFICATION Spec
CONSTANTS
  NSlots = 9
  Stands = {1, 2, 4}
  Fills = {2, 4}
  MaxOps = 6
  Emit = TRUE
INVARIANT Tiles NoRepeat EmitDone
CHECK_DEADLOCK FALSE
