SPECIFICATION Spec
CONSTANTS
  MaxDepth = 2
  MaxCrash = 2
INVARIANT Mutex NoLeak
PROPERTY Refines
CHECK_DEADLOCK FALSE
