SPECIFICATION Spec
CONSTANTS
  Names = {1, 2, 3, 4}
  Sizes = {0, 1, 2, 5}
  Limits = {0, 1, 4}
  MaxOps = 5
  Emit = FALSE
INVARIANT Absent Distinct
PROPERTY RoomMade OldestFirst OthersUntouched NoNeedlessLoss
VIEW View
CHECK_DEADLOCK FALSE
