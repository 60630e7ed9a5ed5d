SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1}
  T = 4
INVARIANT Expected Hermitian AutoIsPower Power OnTime
CHECK_DEADLOCK FALSE
