SPECIFICATION Spec
INVARIANT Abs
INVARIANT Counted
CHECK_DEADLOCK FALSE
