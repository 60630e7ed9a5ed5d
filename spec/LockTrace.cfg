SPECIFICATION Spec
INVARIANT MutualExclusion
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
