SPECIFICATION Spec
CONSTANTS
  FS = 196000000
  DAY = 86400
INVARIANT TypeOK
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
