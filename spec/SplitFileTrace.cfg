SPECIFICATION Spec
INVARIANT InRange
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
