SPECIFICATION SpecAll
CONSTANTS
  MaxOps = 3
  Emit = FALSE
PROPERTIES Alone Undone Kept
CHECK_DEADLOCK FALSE
