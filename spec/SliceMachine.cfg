SPECIFICATION Spec
INVARIANT InArray
INVARIANT Distinct
INVARIANT Ordered
INVARIANT Complete
INVARIANT Regular
CHECK_DEADLOCK FALSE
