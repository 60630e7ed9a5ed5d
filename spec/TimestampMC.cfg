SPECIFICATION Spec
CONSTANTS
  FS = 4
  DAY = 4
  MaxOps = 6
  Emit = FALSE
INVARIANT TypeOK Trichotomy Inverse Signs
VIEW View
CHECK_DEADLOCK FALSE
