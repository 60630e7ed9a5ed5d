SPECIFICATION Spec
CONSTANTS
  MaxOps = 0
  Emit = "none"
  Ns = {4, 8, 16}
  MaxL = 64
INVARIANTS Tiled Whole
CHECK_DEADLOCK FALSE
