SPECIFICATION Spec
INVARIANT Absent Distinct
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
