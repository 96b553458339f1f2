SPECIFICATION Spec
INVARIANT Owed
CHECK_DEADLOCK FALSE
