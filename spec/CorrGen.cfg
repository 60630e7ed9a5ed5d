SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1}
  T = 4
INVARIANT EmitPar
CONSTRAINT OnlyInit
CHECK_DEADLOCK FALSE
