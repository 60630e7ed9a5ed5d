SPECIFICATION Spec
CONSTANTS
  Defaults <- MCDefaults
  Optional <- MCOptional
  MaxOps = 7
  MaxStamp = 4
  Emit = FALSE
INVARIANT TypesKept TempsGone
PROPERTY NoLostUpdate
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
