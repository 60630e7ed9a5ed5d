SPECIFICATION Spec
INVARIANT Safety
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
